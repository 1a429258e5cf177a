"""Writer for change journal records."""
import struct
from vlib import ntfs

REASONS = {0x1: 'DATA_OVERWRITE', 0x2: 'DATA_EXTEND', 0x4: 'DATA_TRUNCATION', 0x10: 'NAMED_DATA_OVERWRITE', 0x20: 'NAMED_DATA_EXTEND', 0x40: 'NAMED_DATA_TRUNCATION', 0x100: 'FILE_CREATE',
	0x200: 'FILE_DELETE', 0x400: 'EA_CHANGE', 0x800: 'SECURITY_CHANGE', 0x1000: 'RENAME_OLD_NAME', 0x2000: 'RENAME_NEW_NAME', 0x4000: 'INDEXABLE_CHANGE', 0x8000: 'BASIC_INFO_CHANGE', 0x10000: 'HARD_LINK_CHANGE',
	0x20000: 'COMPRESSION_CHANGE', 0x40000: 'ENCRYPTION_CHANGE', 0x80000: 'OBJECT_ID_CHANGE', 0x100000: 'REPARSE_POINT_CHANGE', 0x200000: 'STREAM_CHANGE', 0x400000: 'TRANSACTED_CHANGE', 0x800000: 'INTEGRITY_CHANGE', 0x80000000: 'CLOSE'}
SOURCES = {1: 'DATA_MANAGEMENT', 2: 'AUXILIARY_DATA', 4: 'REPLICATION_MANAGEMENT', 8: 'CLIENT_REPLICATION_MANAGEMENT'}


def resolve(value, table, prefix):
	out = [prefix + n for f, n in sorted(table.items()) if value & f]
	rest = value & ~sum(table)
	if rest:
		out.append(hex(rest))
	return ' | '.join(out)


class Rec(object):
	def __init__(self, d, version=None, number=None, names=None):
		self.v = v = version or d.pick((2, 2, 3, 4))
		self.minor = d.pick((0, 0, 1, d.u(16)))
		bits = 64 if v == 2 else 128
		if d.chance(30):
			self.ref, self.parent = d.u(bits), d.u(bits)
		else:
			self.ref, self.parent = ntfs.ref(d.int(5, 0xFFFFFF), d.u(16)), ntfs.ref(d.int(5, 0xFFFFFF), d.u(16))
		self.usn = d.u(64)
		self.ts = ntfs.gen_ft(d)
		self.reason = d.u(32) if d.bool() else d.pick(sorted(REASONS))
		self.source = d.u(32) if d.chance(30) else d.uni(0, 15)
		self.sec = d.u(32)
		self.fattr = d.u(32)
		self.name = (d.name(1, 60) if d.chance(90) else d.name(0, 255))
		self.extents = [(d.int(-(1 << 63), (1 << 63) - 1), d.int(-(1 << 63), (1 << 63) - 1)) for _ in range(d.int(1, 12))]
		if d.chance(6):
			# A large record (up to two pages).
			self.extents = [(k * 4096, d.u(30)) for k in range(d.pick((60, 251, 252, 253, 507, 508, d.int(13, 508))))]
		self.remaining = d.u(32)
		self.extent_size = 16
		if d.chance(15):
			self.extent_size = d.pick((8, 24, 32))
			self.extents = [d.blob(self.extent_size) for _ in range(d.int(2, 6))]
			while 64 + self.extent_size * len(self.extents) < 80:
				self.extents.append(d.blob(self.extent_size))
		self.gap = d.pick((0, 0, 0, 4)) if v != 4 else 0
		self.pad = d.pick((0, 0, 8)) if v != 4 else 0
		self.fill = d.blob(8)
		self.lost = 0  # How much of the name is beyond the end of the record.

	def bytes(self):
		if self.v in (2, 3):
			nm = ntfs.u16(self.name)
			base = 60 if self.v == 2 else 76
			w = 8 if self.v == 2 else 16
			off = base + self.gap
			body = self.ref.to_bytes(w, 'little') + self.parent.to_bytes(w, 'little') + struct.pack('<QQLLLLHH', self.usn, self.ts, self.reason, self.source, self.sec, self.fattr, len(nm) if not self.lost else len(nm) + 64 + self.lost, off) + b'\x00' * self.gap + nm
			ln = (8 + len(body) + 7) & ~7
			ln = max(ln, (base + 4 + 7) & ~7) + self.pad
		else:
			body = self.ref.to_bytes(16, 'little') + self.parent.to_bytes(16, 'little') + struct.pack('<QLLLHH', self.usn, self.reason, self.source, self.remaining, len(self.extents), self.extent_size)
			for e in self.extents:
				body += struct.pack('<qq', *e) if self.extent_size == 16 else e
			ln = (8 + len(body) + 7) & ~7
		out = struct.pack('<LHH', ln, self.v, self.minor) + body
		return out + (self.fill * 4)[:ln - len(out)]


def plausible(data, pos):
	"""Does a complete record with a known version and a usable length start here?"""
	if len(data) - pos < 8:
		return False
	ln, v, _ = struct.unpack_from('<LHH', data, pos)
	if v not in (2, 3, 4) or ln % 8 or ln < 8 or pos + ln > len(data):
		return False
	return ln >= {2: 60, 3: 76, 4: 64}[v]
