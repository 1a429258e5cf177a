"""Writer for whole (small) NTFS volumes."""
import struct
from vlib import ntfs
from vlib.ntfs import ref, attr_resident, attr_nonresident, Record


class Volume(object):
	"""A volume whose file table holds the given plain record images.

	`segments` maps record numbers to bytes (already protected); record 0 and
	the extension records of the table are made here."""

	def __init__(self, d, frs=None, bps=None, spc=None, voff=None, maxclusters=None):
		self.d = d
		self.bps = bps or d.pick((512, 512, 1024, 2048, 4096))
		self.spc = spc or d.pick((1, 1, 2, 4, 8, 16))
		while self.bps * self.spc > 16384:
			self.spc //= 2
		self.cs = self.bps * self.spc
		self.frs = frs or d.pick((1024, 4096))
		self.voff = voff if voff is not None else d.pick((0, 0, 512, 1048576, 512 * 63))
		self.extra_files = []  # (name, runs) bookkeeping

	def frs_code(self):
		if self.frs % self.cs == 0 and self.frs // self.cs < 128 and self.d.bool():
			return self.frs // self.cs
		return -(self.frs.bit_length() - 1)

	def layout(self, table_size, frags, reserve=16):
		"""Choose clusters for the table; the rest of the pool is left for others."""
		d = self.d
		need = (table_size + self.cs - 1) // self.cs
		total = need * 2 + reserve + 8
		first = d.uni(1, total - need)
		pool = list(range(1, total))
		self.total = total
		self.pool = pool
		# The first record is found through the boot sector, so it is contiguous.
		lead = min(need, -(-self.frs // self.cs))
		at = d.uni(0, len(pool) - lead - 1)
		head = pool[at:at + lead]
		del pool[at:at + lead]
		runs, lcns = [(head[0], lead)], list(head)
		if need > lead:
			if frags <= 1:
				at = next((i for i, x in enumerate(pool) if x == head[-1] + 1), None)
				if at is None or len(pool) - at < need - lead:
					# Start over at the beginning of the pool.
					pool[:] = list(range(1, total))
					runs, lcns = [(pool[0], need)], pool[:need]
					del pool[:need]
				else:
					lcns += pool[at:at + need - lead]
					del pool[at:at + need - lead]
					runs = [(head[0], need)]
			else:
				more, l2 = ntfs.split_runs(d, need - lead, pool, frags - 1)
				if more[0][0] == head[-1] + 1 and d.bool():
					more[0] = (head[0], lead + more[0][1])
					runs = more
				else:
					runs += more
				lcns += l2
		return runs, lcns


def store(vol, image, lcns, data):
	"""Write data over clusters."""
	cs = vol.cs
	for i, l in enumerate(lcns):
		part = data[i * cs:(i + 1) * cs]
		image[l * cs:l * cs + len(part)] = part
