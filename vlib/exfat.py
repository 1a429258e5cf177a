"""An independent writer of exFAT volumes (boot region, table, bitmap, entry sets) and a reference reading of directories and trees."""
import struct
import uuid
from datetime import datetime, timedelta
from vlib.engine import check, Discard
from vlib.sparse import Sparse

EOC, BAD = 0xFFFFFFFF, 0xFFFFFFF7
FORBID = set(map(chr, range(32))) | set('"*/:<>?\\|')
ALPHA = ('abcdefghijklmnopqrstuvwxyz ABC.0-_', '\u0430\u0431\u0432\u0433\u0434\u0435', '\U0001F600\U00010348x', '\u4e2d\u6587\u5b57a', "ab'\u00e9\uffee\u2028+,;=[]")


def cdiv(a, b):
	return -(-a // b)


class Geo(object):
	def __init__(self, shift, cshift, count, fatoff=24, nfats=1, fatextra=0, gap=0, tail=0, root=2):
		self.shift, self.cshift, self.count, self.nfats = shift, cshift, count, nfats
		self.bps, self.spc = 1 << shift, 1 << cshift
		self.cs = self.bps * self.spc
		self.fatoff = fatoff
		self.fatlen = cdiv((count + 2) * 4, self.bps) + fatextra
		self.heap = fatoff + self.fatlen * nfats + gap
		self.length = self.heap + count * self.spc + tail
		if self.length * self.bps < 1 << 20:
			self.length = (1 << 20) // self.bps
		self.size = self.length * self.bps
		self.root = root
		self.active = 0

	def cluster_offset(self, c):
		return self.heap * self.bps + (c - 2) * self.cs


def region_checksum(data):
	s = 0
	for i, b in enumerate(data):
		if i not in (106, 107, 112):
			s = (((s << 31) | (s >> 1)) + b) & 0xFFFFFFFF
	return s


def region(g, f=None, bad=None):
	"""The 12 sectors of a boot region."""
	v = dict(jmp=b'\xEB\x76\x90', name=b'EXFAT   ', zero=bytes(53), part=0, serial=1, rev=(1, 0), flags=g.active, drive=0x80, percent=0, reserved=bytes(7), code=bytes(390), sig=b'\x55\xAA', ebs={}, oem=b'', last=bytes(0), over={})
	v.update(f or {})
	out = v['jmp'] + v['name'] + v['zero'] + struct.pack('<QQLLLLLLBBHBBBBB', v['part'], g.length, g.fatoff, g.fatlen, g.heap, g.count, g.root, v['serial'], v['rev'][1], v['rev'][0], v['flags'], g.shift, g.cshift, g.nfats, v['drive'], v['percent'])
	out += v['reserved'] + v['code'] + v['sig']
	out = bytearray(out.ljust(g.bps, b'\x00'))
	assert len(out) == g.bps
	for o, b in v['over'].items():
		out[o:o + len(b)] = b
	for i in range(1, 9):
		out += v['ebs'].get(i, bytes(508) + b'\x00\x00\x55\xAA').ljust(g.bps, b'\x00')
	out += v['oem'].ljust(g.bps, b'\x00')  # Sector 9: OEM parameters.
	out += v['last'].ljust(g.bps, b'\x00')  # Sector 10: reserved.
	assert len(out) == 11 * g.bps
	s = region_checksum(out)
	if bad == 'sum':
		s ^= 1
	return bytes(out) + struct.pack('<L', s) * (g.bps // 4)


def set_checksum(raw):
	s = 0
	for i, b in enumerate(raw):
		if i not in (2, 3):
			s = (((s << 15) | (s >> 1)) + b) & 0xFFFF
	return s


def file_set(name, m, extra=(), nlen=None, fix=None):
	"""An entry set in use. m: attr, data flags, stamps, stream flags, first cluster, sizes."""
	raw16 = name if isinstance(name, bytes) else name.encode('utf-16le')
	n = len(raw16) // 2
	parts = [raw16[i:i + 30].ljust(30, b'\x00') for i in range(0, max(len(raw16), 1), 30)]
	sec = [struct.pack('<BBBBHBBQLLQ', 0xC0, m['sflags'], m['efspad'], n if nlen is None else nlen, m['hash'], m['efshdr'], 0, m['vdl'], 0, m['cl'], m['size'])]
	sec += [struct.pack('<BB', 0xC1, 0) + p for p in parts]
	sec += list(extra)
	prim = struct.pack('<BBHHHLLLBBBBB7s', 0x85, len(sec), 0, m['attr'], m['dflags'], m['c'][0], m['m'][0], m['a'][0], m['c'][1], m['m'][1], m['c'][2], m['m'][2], m['a'][2], bytes(7))
	out = bytearray(prim + b''.join(sec))
	if fix:
		fix(out)
	struct.pack_into('<H', out, 2, set_checksum(out))
	return bytes(out)


def delete(raw):
	"""Clear the in-use bits of a set."""
	out = bytearray(raw)
	for i in range(0, len(out), 32):
		out[i] &= 0x7F
	return bytes(out)


def gen_stamp(d):
	if d.chance(10):
		return (d.u(32), d.u(8), d.u(8))
	dt = datetime(1980, 1, 1) + timedelta(days=d.int(0, 46750), seconds=2 * d.int(0, 43199))
	v = ((dt.year - 1980) << 25) | (dt.month << 21) | (dt.day << 16) | (dt.hour << 11) | (dt.minute << 5) | (dt.second // 2)
	return (v, d.pick((0, 100, 199, d.int(0, 199), 200, 255)), d.pick((0, 0x80, 0xFF, 0xBF, 0xC0, 0x7F, d.u(8))))


def gen_meta(d, directory=False, cl=0, size=None, contiguous=None):
	if size is None:
		size = d.pick((0, d.u(16), d.u(64)))
	return dict(attr=(0x10 if directory else 0) | (d.u(16) & ~0x10 if d.chance(20) else d.u(8) & 0x2F), dflags=d.pick((0, 0, 0x8000, d.u(16))), c=gen_stamp(d), m=gen_stamp(d), a=gen_stamp(d),
		sflags=1 | (2 if (d.bool() if contiguous is None else contiguous) else 0) | d.pick((0, 0, d.u(8) & 0xFC)), efspad=d.pick((0, d.u(8))), efshdr=d.pick((0, d.u(8))), hash=d.u(16), vdl=d.pick((size, 0, d.u(64))), cl=cl, size=size)


def stamp(v, add=0):
	if add > 199:
		add = 0
	try:
		return datetime(1980 + (v >> 25), (v >> 21) & 15, (v >> 16) & 31, (v >> 11) & 31, (v >> 5) & 63, (v & 31) * 2) + timedelta(milliseconds=10 * add)
	except ValueError:
		return None


def zone(v):
	if not v & 0x80:
		return None
	v &= 0x7F
	return v - 128 if v >= 64 else v


def text(raw):
	out = b''
	for i in range(0, len(raw), 2):
		if raw[i:i + 2] == b'\x00\x00':
			break
		out += raw[i:i + 2]
	return out.decode('utf-16le', 'replace')


def good_name(s):
	return len(s) > 0 and not set(s) & FORBID and s not in ('.', '..')


class Invalid(Exception):
	"""The root directory is invalid as a whole; items so far are kept by the caller."""


def model(buf, root):
	"""Items of a directory, in order: ('file', fields), ('orphan', name), ('label', text), ('bitmap', id, cluster, size). Raises Invalid where the documented rules refuse a root."""
	labels = bitmaps = 0
	pos = 0
	n = len(buf) // 32
	ent = [buf[i * 32:i * 32 + 32] for i in range(n)]
	i = 0
	while i < n:
		e = ent[i]
		t = e[0]
		if t == 0:
			return
		if t == 0x80:
			if root:
				raise Invalid()
			return
		pure, used = t & 0x7F, t & 0x80 > 0
		if not t & 0x40:
			if not root and used and pure in (1, 2, 3):
				return
			if pure == 5:
				f = file_fields(ent, i)
				if f is not None:
					yield ('file', f)
					i += 1 + e[1]
					continue
			elif root and used and pure == 3:
				labels += 1
				if labels > 1 or e[1] > 15:
					raise Invalid()
				if e[1]:
					s = text(e[2:2 + 2 * e[1]])
					if not s or set(s) & FORBID:
						raise Invalid()
					yield ('label', s)
			elif root and used and pure == 1:
				bitmaps += 1
				if bitmaps > 2:
					raise Invalid()
				yield ('bitmap', e[1] & 1) + struct.unpack('<LQ', e[20:32])
		elif pure == 0x41:
			k = 0
			raw = b''
			while i + k < n and ent[i + k][0] == t and ent[i + k][1] == 0 and k < 17:
				raw += ent[i + k][2:]
				k += 1
				if raw.endswith(b'\x00\x00'):
					break
			s = text(raw)
			if k and good_name(s):
				yield ('orphan', s)
				i += k
				continue
		i += 1


def file_fields(ent, i):
	e = ent[i]
	cnt = e[1]
	used = e[0] & 0x80 > 0
	if not 2 <= cnt <= 64 or i + 1 + cnt > len(ent):
		return None
	sec = ent[i + 1:i + 1 + cnt]
	csum, attr, dfl, c, m, a, c10, m10, cz, mz, az = struct.unpack('<HHHLLLBBBBB', e[2:25])
	if used and csum != set_checksum(e + b''.join(sec)):
		return None
	name = b''
	names = 0
	vendor = False
	for k, s in enumerate(sec):
		t = s[0]
		if t in (0, 0x80) or not t & 0x40 or (used and not t & 0x80):
			return None
		t &= 0x7F
		if (k == 0) != (t == 0x40) or (k == 1 and t != 0x41):
			return None
		if t == 0x40:
			if not s[1] & 1 or s[3] == 0:
				return None
			nlen = s[3]
			contiguous = s[1] & 2 > 0
			vdl, = struct.unpack('<Q', s[8:16])
			cl, size = struct.unpack('<LQ', s[20:32])
		if t == 0x41:
			names += 1
			if names > cdiv(nlen, 15) or names > 17:
				return None
			name += s[2:]
		if vendor and t not in (0x60, 0x61):
			return None
		vendor |= t in (0x60, 0x61)
	nm = text(name[:2 * nlen])
	if not good_name(nm):
		return None
	return dict(is_deleted=not used, is_directory=attr & 0x10 > 0, name=nm, atime=stamp(a), atz=zone(az), mtime=stamp(m, m10), mtz=zone(mz), ctime=stamp(c, c10), ctz=zone(cz), size=size, valid_data_length=vdl, attributes=attr,
		first_cluster=cl, is_encrypted=dfl & 0x8000 > 0, no_fat_chain=contiguous)


def label_entry(s, length=None):
	raw = s.encode('utf-16le')
	return (struct.pack('<BB', 0x83, len(raw) // 2 if length is None else length) + raw).ljust(32, b'\x00')[:32]


def bitmap_entry(ident, cl, size):
	return struct.pack('<BB18sLQ', 0x81, ident, bytes(18), cl, size)


def upcase_entry(cl, size):
	return struct.pack('<BBHL12sLQ', 0x82, 0, 0, 1, bytes(12), cl, size)


def gen_name(d, lo=1):
	n = d.pick((14, 15, 16, 29, 30, 31, d.int(lo, 40), 255 if d.chance(10) else 5))
	s = d.name(max(lo, 1), n, ALPHA)
	return s if good_name(s) else 'q' + s


def gen_items(d, n, root=False):
	"""Assorted non-directory entries: (kind, bytes)."""
	out = []
	for _ in range(d.int(0, n)):
		k = d.pickw([(35, 'file'), (15, 'deleted'), (8, 'partly'), (6, 'vendor'), (6, 'badsum'), (6, 'badset'), (6, 'badname'), (8, 'orphan'), (4, 'skip'), (3, 'longname'), (3, 'shortlen')])
		m = gen_meta(d, False, d.pick((0, d.int(0, 300), d.u(32))))
		name = gen_name(d)
		if k == 'file':
			raw = file_set(name, m)
		elif k == 'deleted':
			raw = delete(file_set(name, m))
			if d.chance(20):
				raw = raw[:2] + d.blob(2) + raw[4:]
		elif k == 'partly':
			x = bytearray(file_set(name, m))
			x[d.int(0, len(x) // 32 - 1) * 32] &= 0x7F
			if d.bool():
				x[2:4] = struct.pack('<H', set_checksum(x))
			raw = bytes(x)
		elif k == 'vendor':
			ext = [struct.pack('<BB', d.pick((0xE0, 0xE1)), 0) + d.blob(30) for _ in range(d.int(1, 3))]
			if d.chance(20):
				ext.append(struct.pack('<BB', 0xC1, 0) + 'zz'.encode('utf-16le').ljust(30, b'\x00'))
			if d.chance(15):
				ext.append(struct.pack('<BB', d.pick((0xC2, 0xE2, 0xC0, 0x85)), 0) + d.blob(30))
			raw = file_set(name, m, ext)
		elif k == 'badsum':
			x = bytearray(file_set(name, m))
			x[d.int(0, len(x) - 1)] ^= 1 << d.int(0, 7)
			raw = bytes(x)
		elif k == 'badset':
			how = d.pick(('stream', 'count', 'alloc', 'order', 'type', 'between', 'extra'))
			if how == 'extra':
				name = d.pick(('abcdefghijklmno', 'abcdefghijklmno' * 2, 'x' * 255, 'abcdefghijklmn'))

			def fix(o):
				if how == 'stream':
					o[32] = 0xC1
				elif how == 'count':
					o[1] = d.pick((0, 1, 65, 255, o[1] + 1))
				elif how == 'alloc':
					o[33] &= 0xFE
				elif how == 'order':
					o[64] = 0xC0
				elif how == 'between':
					o[64:64] = struct.pack('<BB', d.pick((0xE2, 0xC2, 0xE0, 0xFF)), 0) + d.blob(30)
					o[1] += 1
				elif how == 'extra':
					o += struct.pack('<BB', 0xC1, 0) + d.pick((bytes(30), 'zz'.encode('utf-16le').ljust(30, b'\x00')))
					o[1] += 1
				else:
					o[64] = d.pick((0x00, 0x80, 0x85, 0x41, 0xE0))
			raw = file_set(name, m, fix=fix)
		elif k == 'badname':
			raw = file_set(d.pick(('a/b', 'x:y', 'tab\t', '.', '..', 'q?', 'a\\b', '<', 'nul\x01')) if d.chance(70) else name, m, nlen=d.pick((None, 0)))
		elif k == 'orphan':
			x = file_set(name, m)[64:]
			how = d.pick(('used', 'deleted', 'flag', 'mixed', 'many', 'bad'))
			if how != 'used':
				x = delete(x)
			if how == 'flag':
				y = bytearray(x)
				y[d.int(0, len(x) // 32 - 1) * 32 + 1] = d.int(1, 255)
				x = bytes(y)
			elif how == 'mixed' and len(x) > 32:
				x = x[:32] + b'\xC1' + x[33:]
			elif how == 'many':
				x = b''.join(b'\x41\x00' + 'abcdefghijklmno'.encode('utf-16le') for _ in range(d.int(15, 19)))
			elif how == 'bad':
				x = (b'\x41\x00' + d.pick(('a/b', '', '..', '\x03')).encode('utf-16le')).ljust(32, b'\x00')
			raw = x
		elif k == 'skip':
			raw = bytes([d.pick((0xA1, 0xA2, 0xA0, 0x21, 0x22, 0x20, 0xE0, 0x60, 0xC0, 0x40, 0x02, 0x01, 0x03))]) + d.blob(31)
		elif k == 'longname':
			# More name entries than the length asks for.
			raw = file_set(name, m, nlen=d.int(1, 255))
		else:
			# The length cuts the name: what is left has to be a valid name as well.
			s = d.pick(('abc/def', 'ab\x05cd', 'abcdef', 'x:yz', '..q', '.q', '\U0001F600abc', 'a\U0001F600\U00010348/x', 'ab\U0001F600cdefghijkl'))
			raw = file_set(s, m, nlen=d.int(1, len(s.encode('utf-16le')) // 2))
		if raw:
			out.append((k, raw))
	return out


class Tree(object):
	PATHS = 4000

	def __init__(self, d, damage=True):
		self.d = d
		shift = d.pick((9, 9, 9, 10, 12))
		cshift = d.pick((0, 0, 1, 2)) if shift == 9 else 0
		count = d.pick((d.int(2200, 9000), 4096)) if shift == 9 else d.int(1100, 3000)
		nfats = d.pick((1, 1, 2))
		self.g = g = Geo(shift, cshift, count, fatoff=d.pick((24, 128)), nfats=nfats, fatextra=d.pick((0, 1)), gap=d.pick((0, 3)), tail=d.pick((0, 9)))
		g.active = d.int(0, nfats - 1)
		self.damage = damage
		self.offset = d.pick((0, 1, 2048)) * 512
		self.tab = {0: 0xFFFFFFF8, 1: EOC}
		self.clusters = {}
		self.bits = set()
		self.used = set()
		self.serial = 0
		self.kinds = set()
		self.build()

	def take(self, n, contiguous=False):
		d, last = self.d, self.g.count + 1
		for _try in range(100):
			out = []
			c = d.int(2, min(last, 80) if d.chance(60) else last)
			while len(out) < n:
				if c in self.used or c > last or c in out:
					if contiguous:
						break
					c = d.int(2, last)
					if c in self.used or c in out:
						continue
				out.append(c)
				c = c + 1 if contiguous or d.chance(40) else d.int(2, last)
			if len(out) == n:
				self.used.update(out)
				return out
		raise Discard()

	def chain(self, cl, end=EOC):
		for a, b in zip(cl, cl[1:]):
			self.tab[a] = b
		if cl:
			self.tab[cl[-1]] = end

	def write(self, cl, data):
		for i, c in enumerate(cl):
			self.clusters[c] = data[i * self.g.cs:(i + 1) * self.g.cs].ljust(self.g.cs, b'\x00')

	def build(self):
		d, g = self.d, self.g
		self.root = self.take(1)[0]
		g.root = self.root
		blen = cdiv(g.count, 8)
		self.bm = self.take(cdiv(blen, g.cs))
		self.chain(self.bm)
		self.bits.update(self.bm)
		self.blen = blen
		self.budget = d.pick((2, 6, 14))
		body = self.directory('', self.root, [self.root], 0)
		head = b''
		order = d.perm(4)
		ents = [bitmap_entry(g.active, self.bm[0], blen), upcase_entry(0, 0), label_entry(d.pick(('', 'DISK', d.name(1, 15, ALPHA[:1])))), bytes([0xA0]) + d.blob(31)]
		if g.nfats == 2:
			# The bitmap that is not in force says something else.
			self.bm2 = self.take(len(self.bm))
			self.chain(self.bm2)
			self.bits.update(self.bm2)
			self.write(self.bm2, d.pick((bytes(blen), b'\xFF' * blen, d.blob(64).ljust(blen, b'\x55'))))
			ents.insert(d.int(0, 1), bitmap_entry(1 - g.active, self.bm2[0], blen))
		if d.chance(80):
			head = b''.join(ents)
		else:
			head = b''.join(ents[i] for i in order if i < len(ents)) + b''.join(ents[4:])
		cut = body.find(bytes(32))  # Not aligned; only used to know whether there is an end mark.
		body = head + body
		n = max(1, cdiv(len(body), g.cs))
		cl = [self.root] + (self.take(n - 1) if n > 1 else [])
		self.chain(cl)
		self.bits.update(cl)
		self.write(cl, body)
		bm = bytearray(blen)
		for c in self.bits:
			bm[(c - 2) // 8] |= 1 << ((c - 2) % 8)
		self.write(self.bm, bytes(bm))

	def place(self, n, data, mode, live, chain_end=EOC):
		"""mode: 'fat' or 'contiguous'. live: mark in the bitmap."""
		cl = self.take(n, mode == 'contiguous')
		if mode == 'fat':
			self.chain(cl, chain_end)
		if live:
			self.bits.update(cl)
		self.write(cl, data)
		return cl

	def dirset(self, name, cl, size, contiguous, deleted=False):
		m = gen_meta(self.d, True, cl, size, contiguous)
		m['vdl'] = size
		raw = file_set(name, m)
		return delete(raw) if deleted else raw

	def nm(self):
		self.serial += 1
		s = gen_name(self.d)
		while len(s.encode('utf-16le')) > 400:
			s = s[:-1]
		return s + str(self.serial)

	def directory(self, path, me, stack, depth):
		d, g = self.d, self.g
		out = b''
		for _ in range(d.int(0, 8)):
			kind = d.pickw([(25, 'items'), (25, 'dir'), (12, 'deldir'), (8, 'delchained'), (5, 'reusedfile'), (5, 'reuseddir'), (4, 'loop'), (3, 'zero'), (3, 'invalid'), (4, 'brokenchain'), (3, 'oddsize'), (2, 'end')])
			if kind in ('dir', 'deldir', 'delchained', 'brokenchain', 'reuseddir', 'oddsize') and (self.budget <= 0 or depth > 5):
				kind = 'items'
			if not self.damage and kind in ('loop', 'invalid', 'brokenchain', 'oddsize', 'end'):
				kind = 'items'
			self.kinds.add(kind)
			name = self.nm()
			if kind == 'items':
				out += b''.join(x[1] for x in gen_items(d, 4) if not (x[0] == 'skip' and depth and x[1][0] & 0x80 and x[1][0] & 0x7F in (1, 2, 3)) or self.damage)
			elif kind in ('dir', 'deldir', 'brokenchain', 'oddsize', 'delchained', 'reuseddir'):
				self.budget -= 1
				mode = d.pick(('fat', 'contiguous')) if kind != 'brokenchain' else 'fat'
				first = self.take(1)[0]
				self.used.discard(first)
				sub = self.directory(path + '/' + name, first, stack, depth + 1)
				if kind == 'delchained':
					# A directory deleted while in use: it was empty, so only deleted sets remain in it.
					if d.chance(80):
						sub = delete(file_set(self.nm(), gen_meta(d, False, 0))) + sub
				n = max(1, cdiv(len(sub), g.cs)) + (1 if d.chance(10) else 0)
				live = kind not in ('deldir',)
				end = EOC
				if kind == 'brokenchain':
					end = d.pick((g.count + 2, 0xFFFFFFF8, BAD, 0, 1, d.int(2, g.count + 1)))
				cl = self.place(n, sub, mode, live, end)
				if kind == 'brokenchain' and d.chance(20):
					self.tab[cl[-1]] = d.pick(cl)
				size = n * g.cs
				if kind == 'oddsize':
					size = d.pick((size + 1, size - 1, 0, 1, 511, 513, size + g.cs, 1 << 40))
					if size == 1 << 40 and mode == 'contiguous':
						size = n * g.cs + 100
				raw = self.dirset(name, cl[0], size, mode == 'contiguous', kind in ('deldir', 'delchained', 'reuseddir'))
				if kind == 'delchained' and d.chance(40):
					# An older deleted set for the same cluster.
					other = self.dirset(self.nm(), cl[0], d.pick((size, g.cs)), d.bool(), True)
					raw = raw + other if d.bool() else other + raw
				if kind == 'reuseddir':
					new = self.dirset(self.nm(), cl[0], size, mode == 'contiguous')
					raw = raw + new if d.bool() else new + raw
				out += raw
			elif kind == 'reusedfile':
				cl = self.place(1, d.blob(g.cs), 'fat', True)
				out += self.dirset(name, cl[0], g.cs, d.bool(), True)
			elif kind == 'loop':
				out += self.dirset(name, d.pick(stack), g.cs, d.bool(), d.chance(20))
			elif kind == 'zero':
				out += self.dirset(name, d.pick((0, 1)), d.pick((0, g.cs)), d.bool(), d.bool())
			elif kind == 'invalid':
				out += self.dirset(name, d.pick((g.count + 2, 0xFFFFFFF7, EOC, g.count + 1)), g.cs * d.int(1, 3), d.bool(), d.bool())
			elif kind == 'end':
				out += bytes(32) if d.bool() or depth == 0 else b'\x80' + bytes(31)
		return out

	def image(self, main=True):
		g = self.g
		s = Sparse(self.offset + g.size)
		r = region(g)
		if main:
			s.put(self.offset, r)
		s.put(self.offset + 12 * g.bps, r)
		top = max(self.tab) + 1
		raw = b''.join(struct.pack('<L', self.tab.get(i, 0)) for i in range(top))
		for n in range(g.nfats):
			s.put(self.offset + (g.fatoff + n * g.fatlen) * g.bps, raw if n == g.active else self.d.blob(64))
		for c, data in self.clusters.items():
			s.put(self.offset + g.cluster_offset(c), data)
		return s

	def fat_chain(self, c):
		last = self.g.count + 1
		if c in (0, 1):
			return []
		if c == BAD:
			return None
		out = [c]
		while True:
			if out[-1] > last:
				return None
			v = self.tab.get(out[-1], 0)
			if v in out or v in (0, 1, EOC):
				return out
			if v == BAD:
				return out + [None]
			out.append(v)

	def data(self, c, size=None, contiguous=False, limit=None):
		g = self.g
		if contiguous:
			cl = []
			x = c
			while len(cl) * g.cs < size and 2 <= x <= g.count + 1:
				cl.append(x)
				x += 1
		else:
			cl = self.fat_chain(c)
			if cl is None:
				return None
			if size is not None:
				cl = cl[:cdiv(size, g.cs)]
		for x in cl:
			if x is not None and limit is not None and g.cluster_offset(x) + g.cs > limit:
				return None
		b = b''.join(bytes(g.cs) if x is None else self.clusters.get(x, bytes(g.cs)) for x in cl)
		return b if size is None else b[:size]

	def reference(self, scan=False, limit=None):
		"""(main items, whether the walk then ends with an error, {first cluster: possible orphan item lists})."""
		g = self.g
		last = g.count + 1
		reused, visited = {}, set()
		state = [0]

		def rec(buf, path, stack):
			root = path == ''
			for x in model(buf, root):
				state[0] += 1
				if state[0] > self.PATHS:
					raise Discard()
				if x[0] == 'label':
					yield x
				elif x[0] == 'orphan':
					yield ('orphan', path + '/' + x[1])
				elif x[0] == 'file':
					w = x[1]
					c = w['first_cluster']
					if w['is_directory'] and c and c in stack:
						continue
					yield ('file', dict(w, name=path + '/' + w['name']))
					if not w['is_directory'] or not 2 <= c <= last:
						continue
					if w['is_deleted'] and c in self.bits and not scan:
						reused.setdefault(c, []).append(w)
						continue
					visited.add(c)
					b = self.data(c, w['size'], w['no_fat_chain'], limit)
					if not b or len(b) < 512 or len(b) % 512:
						continue
					for y in rec(b, path + '/' + w['name'], stack | {c}):
						yield y

		b = self.data(self.root, None, False, limit)
		if b is None:
			return None
		main, failed = [], False
		try:
			for y in rec(b, '', {self.root}):
				main.append(y)
		except Invalid:
			failed = True
		orphans = {}
		if not failed:
			for c in set(reused) - visited:
				# The most recent set decides; where that is not clear, any of them may.
				ws = reused[c]
				best = max((w['mtime'] for w in ws if w['mtime'] is not None), default=None)
				alts = []
				for w in ws:
					if best is not None and w['mtime'] != best:
						continue
					b = self.data(c, w['size'], w['no_fat_chain'], limit)
					if not b or len(b) < 512 or len(b) % 512 or b[0] != 5 or b[32] != 0x40 or b[64] != 0x41:
						alts.append([])
						continue
					alts.append(list(rec(b, '<Orphan directory %d>' % c, set())))
				orphans[c] = alts
		return main, failed, orphans
