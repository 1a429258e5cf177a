"""An independent writer of FAT12/16/32 volumes: boot sector, allocation table, directory entries."""
import struct
from datetime import date, datetime, timedelta
from vlib.sparse import Sparse

EOC = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}
BAD = {12: 0xFF7, 16: 0xFFF7, 32: 0x0FFFFFF7}
TOP = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}


def cdiv(a, b):
	return -(-a // b)


class Geo(object):
	"""Geometry of a volume. Every number is derived here from what the harness chose, never from the code under test."""

	def __init__(self, typ, bps, spc, count, rsvd=1, nfats=2, rootent=0, extra_fat=0, slack=0, hidden=0):
		self.typ, self.bps, self.spc, self.count, self.rsvd, self.nfats = typ, bps, spc, count, rsvd, nfats
		self.rootent = 0 if typ == 32 else rootent
		need = (count + 2) * typ
		self.fatsz = cdiv(cdiv(need, 8), bps) + extra_fat
		self.rootsec = cdiv(self.rootent * 32, bps)
		self.slack = slack
		self.totsec = rsvd + nfats * self.fatsz + self.rootsec + count * spc + slack
		self.data = (rsvd + nfats * self.fatsz + self.rootsec) * bps
		self.root = (rsvd + nfats * self.fatsz) * bps
		self.cs = bps * spc
		self.hidden = hidden
		self.active = 0
		self.size = self.totsec * bps

	def fat_offset(self, n=None):
		return (self.rsvd + self.fatsz * (self.active if n is None else n)) * self.bps

	def cluster_offset(self, c):
		return self.data + (c - 2) * self.cs


def boot(g, f=None):
	"""The boot sector; f may override or extend the fields."""
	v = dict(jmp=b'\xEB\x58\x90', oem=b'MSDOS5.0', media=0xF8, spt=63, heads=255, drv=0x80, dirty=0, bootsig=0x29, volid=0x12345678, label=b'NO NAME    ', fstype=None,
		flags=0, ver=0, rootclus=2, fsinfo=1, bk=6, reserved=bytes(12), where=None, sig=b'\x55\xAA', fill=b'\x00')
	v.update(f or {})
	where = v['where']
	if where is None:
		where = 16 if g.totsec < 65536 and g.typ != 32 else 32
	t16 = g.totsec if where == 16 else 0
	t32 = g.totsec if where == 32 else 0
	fstype = v['fstype'] or b'FAT%-5d' % g.typ
	if where == 64:
		fstype = struct.pack('<Q', g.totsec)
	out = v['jmp'] + v['oem'] + struct.pack('<HBHBHHBHHHLL', g.bps, g.spc & 0xFF, g.rsvd, g.nfats, g.rootent, t16, v['media'], 0 if g.typ == 32 else g.fatsz, v['spt'], v['heads'], g.hidden, t32)
	if g.typ == 32:
		out += struct.pack('<LHHLHH', g.fatsz, v['flags'], v['ver'], v['rootclus'], v['fsinfo'], v['bk']) + v['reserved']
	out += struct.pack('<BBBL', v['drv'], v['dirty'], v['bootsig'], v['volid']) + v['label'] + fstype
	out = out.ljust(510, v['fill']) + v['sig']
	assert len(out) == 512
	return out


def fsinfo(free, nxt, r1=bytes(480), r2=bytes(12)):
	return struct.pack('<L', 0x41615252) + r1 + struct.pack('<LLL', 0x61417272, free, nxt) + r2 + struct.pack('<L', 0xAA550000)


def encode_table(typ, values, junk=None):
	"""values: list of table values, by number. junk: top four bits for FAT32."""
	if typ == 16:
		return struct.pack('<%dH' % len(values), *values)
	if typ == 32:
		return struct.pack('<%dL' % len(values), *[v | ((junk[i % len(junk)] & 0xF) << 28 if junk else 0) for i, v in enumerate(values)])
	n = 0
	out = bytearray()
	vals = list(values)
	if len(vals) % 2:
		vals.append(0)
	for a, b in zip(vals[::2], vals[1::2]):
		out += bytes([a & 0xFF, (a >> 8) | ((b & 0xF) << 4), b >> 4])
	return bytes(out)


def checksum(name11):
	s = 0
	for c in name11:
		s = (((s & 1) << 7) + (s >> 1) + c) & 0xFF
	return s


def pack_date(v):
	return 0 if v is None else ((v.year - 1980) << 9) | (v.month << 5) | v.day


def pack_time(v):
	return 0 if v is None else (v.hour << 11) | (v.minute << 5) | (v.second // 2)


def short_entry(name11, attr, nt, ctenth, ctime, cdate, adate, cl, mtime, mdate, size, hi=None):
	return bytes(name11) + struct.pack('<BBBHHHHHHHL', attr, nt, ctenth, ctime, cdate, adate, (cl >> 16) if hi is None else hi, mtime, mdate, cl & 0xFFFF, size)


def long_units(name):
	raw = name.encode('utf-16le', 'surrogatepass')
	return [raw[i:i + 2] for i in range(0, len(raw), 2)]


def long_piece(order, csum, units13, attr=0x0F, typ=0, cl=0):
	u = b''.join(units13)
	assert len(u) == 26
	return bytes([order]) + u[:10] + bytes([attr, typ, csum]) + u[10:22] + struct.pack('<H', cl) + u[22:]


def long_pieces(name, csum):
	"""The pieces of a long name in disk order (the last one first)."""
	u = long_units(name)
	n = cdiv(len(u), 13)
	if len(u) % 13:
		u = u + [b'\x00\x00']
		u += [b'\xFF\xFF'] * (n * 13 - len(u))
	out = []
	for k in range(n, 0, -1):
		out.append(long_piece(k | (0x40 if k == n else 0), csum, u[(k - 1) * 13:k * 13]))
	return out


class Volume(object):
	"""Clusters and table values put on a sparse image."""

	def __init__(self, g, bootf=None, offset=0, tail=0):
		self.g = g
		self.offset = offset
		self.bootf = bootf or {}
		self.tab = {0: (TOP[g.typ] & ~0xFF) | 0xF8, 1: TOP[g.typ]}
		self.clusters = {}
		self.rootbuf = b''
		self.tail = tail
		self.stale_fats = None
		self.junk = None

	def chain(self, cl, end=None):
		for a, b in zip(cl, cl[1:]):
			self.tab[a] = b
		if cl:
			self.tab[cl[-1]] = (EOC[self.g.typ] | 7) if end is None else end

	def write(self, cl, data):
		cs = self.g.cs
		for i, c in enumerate(cl):
			p = data[i * cs:(i + 1) * cs]
			self.clusters[c] = p.ljust(cs, b'\x00')

	def image(self):
		g = self.g
		s = Sparse(self.offset + g.size + self.tail)
		s.put(self.offset, boot(g, self.bootf))
		top = max(self.tab) + 1
		raw = encode_table(g.typ, [self.tab.get(i, 0) for i in range(top)], self.junk)[:g.fatsz * g.bps]
		for n in range(g.nfats):
			if n != g.active and self.stale_fats is not None:
				s.put(self.offset + g.fat_offset(n), self.stale_fats)
			else:
				s.put(self.offset + g.fat_offset(n), raw)
		if g.typ != 32 and self.rootbuf:
			s.put(self.offset + g.root, self.rootbuf)
		for c, data in self.clusters.items():
			s.put(self.offset + g.cluster_offset(c), data)
		return s
