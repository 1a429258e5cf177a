"""A simulated file table stored on a simulated volume."""
from vlib import ntfs, ntfsvol
from vlib.mftsim import A


class TableVolume(object):
	"""Usage: create, add content through clusters(), then image()."""

	def __init__(self, d, sim, frags=None, voff=None, reserve=400, cs=None):
		self.d, self.sim = d, sim
		if cs is None:
			self.vol = vol = ntfsvol.Volume(d, frs=sim.size, voff=voff)
		else:
			self.vol = vol = ntfsvol.Volume(d, frs=sim.size, voff=voff, bps=512, spc=cs // 512)
		self.count = sim.max_number + 4
		size = self.count * sim.size
		self.runs, self.lcns = vol.layout(size, frags or d.pick((1, 1, 3, 6)), reserve=max(reserve, reserve * 512 // vol.cs))
		sim.recs[0].attrs.append(A(0x80, runs=self.runs, lowest=0, highest=len(self.lcns) - 1, size=size, alloc=len(self.lcns) * vol.cs))
		self.stored = []
		self.boot = ntfs.boot_sector(vol.bps, vol.spc, vol.total * vol.spc, self.runs[0][0], d.uni(1, vol.total), vol.frs_code(), d.pick((1, -12)), d.u(64))

	def clusters(self, data, maxfrag):
		"""Store data in free clusters; returns the runs."""
		n = max(1, -(-len(data) // self.vol.cs))
		runs, lcns = ntfs.split_runs(self.d, n, self.vol.pool, maxfrag)
		self.stored.append((lcns, data))
		return runs

	def table(self):
		data = self.sim.build(self.count - max(self.sim.recs) - 1)
		return data

	def body(self, noise=True):
		vol = self.vol
		out = bytearray(self.d.blob(vol.total * vol.cs) if noise else vol.total * vol.cs)
		for lcns, data in self.stored:
			ntfsvol.store(vol, out, lcns, data)
		ntfsvol.store(vol, out, self.lcns, self.table())
		out[:512] = self.boot
		return bytes(out)

	def image(self):
		return self.d.blob(self.vol.voff) + self.body()
