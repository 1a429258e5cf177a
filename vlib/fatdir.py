"""A model of FAT directories: an encoder of intended entries, and an independent reading of the documented rules."""
from datetime import date, datetime, timedelta
import struct
from vlib.engine import check, eq
from vlib import fat as W

GOOD = bytes(set(range(0x21, 0x100)) - set(b'"*,./:;<=>?[\\]|') - set(range(0x61, 0x7B)))
FORBID = set(range(32)) | set(b'"*,./:;<=>?[\\]|')
ALPHA = ('abcdefghijklmnopqrstuvwxyz ABC.0-_', '\u0430\u0431\u0432\u0433\u0434\u0435', '\U0001F600\U00010348x', '\u4e2d\u6587\u5b57a', "ab'\u00e9\uffee\u2028+,;=[]")


class Entry(object):
	def __init__(self, kind, raw, want=None):
		self.kind, self.raw, self.want = kind, raw, want


def gen_short(d, dot=False):
	"""A valid on-disk short name (not deleted): (11 bytes, base bytes, extension bytes)."""
	alpha = d.pick((b'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789~_', GOOD))
	nb, ne = d.int(1, 8), d.pick((0, 3, d.int(0, 3)))
	base = bytes(alpha[d.uni(0, len(alpha) - 1)] for _ in range(nb))
	ext = bytes(alpha[d.uni(0, len(alpha) - 1)] for _ in range(ne))
	if base[0] == 0xE5:
		base = b'X' + base[1:]
	if nb > 2 and d.chance(10):
		base = base[:1] + b' ' + base[2:]
	return base.ljust(8) + ext.ljust(3), base, ext


def gen_stamp(d):
	"""(value to write, expected) for date and time."""
	if d.chance(15):
		return d.u(16), d.u(16)
	dt = datetime(1980, 1, 1) + timedelta(days=d.int(0, 46750), seconds=2 * d.int(0, 43199))
	return W.pack_date(dt), W.pack_time(dt)


def gen_meta(d, is32, directory=None):
	cd, ct = gen_stamp(d)
	md, mt = gen_stamp(d)
	ad, _ = gen_stamp(d)
	if directory is None:
		directory = d.chance(25)
	attr = (0x10 if directory else 0) | (d.u(8) & 0x27) | d.pick((0, 0, 0, 0x40, 0x80))
	return dict(attr=attr, nt=d.pick((0, 0, 8, 0x10, 0x18, 1, d.u(8))), ctenth=d.pick((0, 100, 199, 200, 255, d.int(0, 199), 99)), ctime=ct, cdate=cd, adate=ad, cl=d.pick((0, d.u(16), d.u(32))), mtime=mt, mdate=md, size=d.u(32))


def put(name11, m):
	return W.short_entry(name11, m['attr'], m['nt'], m['ctenth'], m['ctime'], m['cdate'], m['adate'], m['cl'], m['mtime'], m['mdate'], m['size'])


def gen_long(d, lo=1):
	n = d.pick((12, 13, 14, 26, 25, 27, d.int(lo, 40), 255 if d.chance(10) else 5, 254 if d.chance(5) else 6))
	s = d.name(max(lo, 1), max(1, n), ALPHA)
	return s


def gen_dir(d, is32, n):
	out = []
	for _ in range(d.int(0, n)):
		k = d.pickw([(25, 'short'), (30, 'long'), (10, 'deleted'), (12, 'longdel'), (5, 'halfdel'), (8, 'orphan'), (3, 'label'), (5, 'bad'), (2, 'null'), (2, 'dot'), (2, 'kanji')])
		name11, base, ext = gen_short(d)
		m = gen_meta(d, is32)
		cs = W.checksum(name11)
		if k == 'short':
			out.append(Entry(k, put(name11, m), dict(long_name=None, size=m['size'])))
		elif k == 'long':
			ln = gen_long(d)
			out.append(Entry(k, b''.join(W.long_pieces(ln, cs)) + put(name11, m), dict(long_name=ln, size=m['size'])))
		elif k == 'deleted':
			out.append(Entry(k, put(b'\xE5' + name11[1:], m), dict(long_name=None, size=m['size'])))
		elif k == 'longdel':
			ln = gen_long(d)
			ps = [b'\xE5' + p[1:] for p in W.long_pieces(ln, cs)]
			out.append(Entry('deleted', b''.join(ps) + put(b'\xE5' + name11[1:], m), dict(long_name=ln, size=m['size'])))
		elif k == 'halfdel':
			ln = gen_long(d)
			out.append(Entry('deleted', b''.join(W.long_pieces(ln, cs)) + put(b'\xE5' + name11[1:], m), dict(long_name=ln, size=m['size'])))
		elif k == 'orphan':
			ln = gen_long(d, 1 if d.bool() else 14)
			ps = W.long_pieces(ln, cs)
			dl = d.bool()
			if dl:
				ps = [b'\xE5' + p[1:] for p in ps]
			how = d.pick(('plain', 'drop', 'swap', 'csum', 'empty', 'many'))
			if how == 'many':
				ps = [W.long_piece(0xE5, cs, [bytes([d.int(0x61, 0x7A), 0]) for _ in range(13)]) for _ in range(d.pick((19, 20, 21)))]
				if d.bool():
					ps = [bytes([(0x40 if i == 0 else 0) | (len(ps) - i)]) + x[1:] for i, x in enumerate(ps)]
			if how == 'drop':
				ps = ps[:-1] if d.bool() else ps[1:]
			elif how == 'swap' and len(ps) > 1:
				ps[0], ps[1] = ps[1], ps[0]
			elif how == 'csum':
				i = d.int(0, len(ps) - 1)
				ps[i] = ps[i][:13] + bytes([ps[i][13] ^ d.int(1, 255)]) + ps[i][14:]
			elif how == 'empty':
				ps = [W.long_piece(0xE5 if dl else 0x41, cs, [b'\x00\x00'] + [b'\xFF\xFF'] * 12)]
			raw = b''.join(ps)
			if d.bool():
				other = gen_short(d)[0]
				raw += put(other, m)
			out.append(Entry(k, raw))
		elif k == 'label':
			lab = d.pick((b'MY DISK    ', b'lower.case ', d.blobnz(11), b'\x05ABC       ', b'A\nB        ', b'A\x00B        ', b'\xE5OLD       '))
			m['attr'] = d.pick((8, 0x28, 9))
			out.append(Entry(k, put(lab, m)))
		elif k == 'bad':
			x = bytearray(name11)
			how = d.pick(('char', 'lower', 'space', 'attr', 'pattern'))
			if how == 'char':
				x[d.int(0, 10)] = d.pick(sorted(FORBID))
			elif how == 'lower':
				x[d.int(0, 10)] = d.int(0x61, 0x7A)
			elif how == 'space':
				x[0] = 0x20
			elif how == 'attr':
				m['attr'] = d.pick((0x18, 0x38, 0x1F, 0x3F, 0x19))
			raw = put(x, m)
			if how == 'pattern':
				raw = d.pick((bytes(32), b'\xE5' * 32))
			if d.bool():
				raw = b''.join(W.long_pieces(gen_long(d), W.checksum(bytes(x)))) + raw
			out.append(Entry(k, raw))
		elif k == 'null':
			out.append(Entry(k, d.pick((bytes(32), b'\x00' + put(name11, m)[1:]))))
		elif k == 'dot':
			m['attr'] = 0x10
			out.append(Entry(k, put(d.pick((b'.          ', b'..         ')), m)))
		else:
			x = b'\x05' + name11[1:]
			raw = put(x, m)
			w = None
			if d.bool():
				w = gen_long(d)
				raw = b''.join(W.long_pieces(w, W.checksum(x))) + raw
			out.append(Entry(k, raw, dict(long_name=w, size=m['size'])))
	return out


def text16(units):
	out = b''
	for u in units:
		if u == b'\x00\x00':
			break
		out += u
	return out.decode('utf-16le', 'replace')[:255]


def fat_date(v):
	try:
		return date(1980 + (v >> 9), (v >> 5) & 15, v & 31)
	except ValueError:
		return None


def fat_time(v):
	h, m, s = v >> 11, (v >> 5) & 63, (v & 31) * 2
	return (h, m, s) if h < 24 and m < 60 and s < 60 else None


def when(dv, tv, add=0):
	a, b = fat_date(dv), fat_time(tv)
	if a is None or b is None:
		return None
	return datetime(a.year, a.month, a.day, *b) + timedelta(milliseconds=10 * add)


def valid_short(n):
	if n in (b'.          ', b'..         '):
		return True
	for i, c in enumerate(n):
		if 0x61 <= c <= 0x7A:
			return False
		if i == 0 and c in (0, 5):
			continue
		if c in FORBID or (i == 0 and c == 0x20):
			return False
	return True


def model(pieces, enc, is32):
	"""The entries that a directory of these 32-byte pieces has, in order: ('file', fields) or ('orphan', name)."""
	out = []
	run = []  # (order byte, checksum, units)
	null = False

	def name_of(run):
		units = []
		for o, c, u in reversed(run):
			units += u
		return text16(units) or None

	def flush():
		nm = name_of(run)
		if nm is not None:
			out.append(('orphan', nm))
		del run[:]

	for p in pieces:
		if p[0] == 0:
			null = True
		attr = p[11] & 0x3F
		if attr == 0x0F:
			if p[12]:
				continue
			o, c = p[0], p[13]
			body = p[1:11] + p[14:26] + p[28:32]
			u = [body[i:i + 2] for i in range(0, 26, 2)]
			gone = o in (0, 0xE5)
			if run:
				po, pc = run[-1][:2]
				pgone = po in (0, 0xE5)
				ok = c == pc and ((gone and pgone) or (not gone and not pgone and 1 <= o <= 20 and (po & ~0x40) == o + 1))
				if not ok:
					flush()
			if not run:
				if gone or (o & 0x40 and 1 <= o - 0x40 <= 20):
					run.append((o, c, u))
			else:
				run.append((o, c, u))
			continue
		raw = p[:11]
		gone = raw[0] in (0, 0xE5)
		label = attr & 0x18 == 8
		disp = b'_' + raw[1:] if gone else b'\xE5' + raw[1:] if raw[0] == 5 else raw
		sumname = disp if label else raw
		if gone:
			ln = name_of(run)
			del run[:]
		elif run and run[-1][1] == W.checksum(sumname) and run[-1][0] & ~0x40 == 1:
			ln = name_of(run)
			del run[:]
		else:
			flush()
			ln = None
		if label:
			ok = not set(disp) & {0, 10, 13}
			rawname = disp.rstrip(b' ')
			short = rawname.decode(enc, 'replace')
		else:
			ok = valid_short(raw)
			b, e = disp[:8].rstrip(b' '), disp[8:].rstrip(b' ')
			rawname = b + (b'.' + e if e else b'')
			tb, te = b.decode(enc, 'replace'), e.decode(enc, 'replace')
			if p[12] & 8:
				tb = tb.lower()
			if p[12] & 0x10:
				te = te.lower()
			short = tb + ('.' + te if te else '')
		if not ok or attr & 0x18 == 0x18 or p in (bytes(32), b'\xE5' * 32):
			if ln is not None:
				out.append(('orphan', ln))
			continue
		ct, cd, ad, hi, mt, md, lo, size = struct.unpack('<HHHHHHHL', p[14:32])
		out.append(('file', dict(is_deleted=True if gone else None if null else False, is_directory=attr & 0x18 == 0x10, short_name=short, short_name_raw=rawname, long_name=ln, atime=fat_date(ad), mtime=when(md, mt),
			ctime=when(cd, ct, p[13] if p[13] <= 199 else 0), size=size, attributes=attr, ntbyte=p[12], first_cluster=lo | (hi << 16 if is32 else 0), is_encrypted=p[12] & 1 > 0)))
	flush()
	return out


def short_only(want):
	out = []
	for k, w in want:
		if k == 'file':
			out.append((k, dict(w, long_name=None)))
	return out


def intended(entries, want, enc):
	"""Complete entries that no left-over piece precedes must be in the model with their long name."""
	have = [(w['long_name'], w['size']) for k, w in want if k == 'file']
	clean = True
	for e in entries:
		if e.want is not None and clean:
			check((e.want['long_name'], e.want['size']) in have, 'harness: the model lost %s', e.want)
		clean = e.kind not in ('orphan', 'bad', 'null', 'label')


def compare(got, want, what):
	g = []
	for x in got:
		if type(x).__name__ == 'OrphanLongEntry':
			g.append(('orphan', x.long_name_partial))
		else:
			f = x._asdict()
			g.append(('file', dict(f)))
	for i, (a, b) in enumerate(zip(g, want)):
		if a != b:
			if a[0] == 'file' and b[0] == 'file':
				bad = [(k, a[1].get(k), b[1][k]) for k in b[1] if a[1].get(k) != b[1][k] or type(a[1].get(k)) is not type(b[1][k])]
				check(not bad, '%s: entry %d: (field, got, expected) %s', what, i, bad[:3])
			else:
				check(False, '%s: entry %d: got %s, expected %s', what, i, brief(a), brief(b))
	check(len(g) == len(want), '%s: %d entries, expected %d; extra %s', what, len(g), len(want), [brief(x) for x in (g[len(want):] or want[len(g):])[:3]])
	for a, b in zip(g, want):
		if a[0] == 'file':
			for k in ('is_deleted', 'is_directory', 'is_encrypted'):
				check(a[1][k] is b[1][k], '%s: %s is %r, expected %r', what, k, a[1][k], b[1][k])


def brief(w):
	return w[1] if w[0] == 'orphan' else '%s%s' % (w[1]['short_name'], '' if w[1]['long_name'] is None else '|' + w[1]['long_name'][:20])
