"""C11: carving names from slack."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import Attributes, MFT

RULE = ('A case assembles slack (one or several pieces) from filler, left-over file-name values at even offsets, values without their first 4 or 8 bytes at the start, and left-over text, and compares the '
	'carved items with what was planted. Inputs in which other bytes happen to look like four plausible timestamps are discarded. Non-trivial: at least one planted value. Distinct by slack bytes.')

LO, HI = 125000000000000000, 145000000000000000
PRINTABLE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!"#$%&\'()*+,-.;<=>?@[]^_`{|}~ '


def gen_name(d):
	n = d.odd_name(1, 40) if d.chance(90) else d.odd_name(1, 255)
	return n.replace('/', '_')


def gen_value(d):
	ts = [d.int(LO, HI) if d.chance(90) else d.pick((LO, HI)) for _ in range(4)]
	return ntfs.FN(d.u(64), gen_name(d), d.u(8), *ts, alloc=d.int(0, 1 << 60), size=d.int(0, 1 << 60), fattr=d.u(32), ea=d.u(16), ea2=d.u(16))


def filler(d, n):
	k = d.uni(0, 3)
	if k == 0:
		return b'\x00' * n
	if k == 1:
		return bytes([d.pick((0xFF, 0x41, 0x7F, 0xEE))]) * n
	if k == 2:
		return (b'a\x00b\x00' * (n // 4 + 1))[:n]
	b = d.blob(n)
	return b if set(b) != {2} else b'\x00' * n


def candidates(value):
	"""Offsets (with the right parity) at which four plausible timestamps lie."""
	out = []
	for pos in range(len(value) % 2, len(value) - 31, 2):
		if all(LO <= t <= HI for t in struct.unpack_from('<QQQQ', value, pos)):
			out.append(pos)
	return out


def gen_piece(d, nvals):
	"""(bytes, planted values: (FN, parent expected))"""
	out = bytearray()
	planted = []
	tspos = []
	if d.chance(25):
		f = gen_value(d)
		cut = d.pick((8, 4))
		tspos.append(8 - cut)
		out += f.value()[cut:]
		planted.append((f, 0xFFFFFFFFFFFFFFFF))
		nvals -= 1
	elif d.chance(10):
		out += filler(d, 1)
	for _ in range(nvals):
		out += filler(d, 2 * d.int(0, 40))
		f = gen_value(d)
		tspos.append(len(out) + 8)
		planted.append((f, f.parent))
		out += f.value()
	out += filler(d, 2 * d.int(0, 40))
	if len(out) % 2 and tspos and tspos[0] % 2 == 0:
		out += b'\x00'
	value = bytes(out)
	if any(p % 2 != len(value) % 2 for p in tspos):
		raise Discard()
	if candidates(value) != tspos:
		raise Discard()
	return value, planted


def cmp_fn(got, f, parent):
	check(type(got) is Attributes.FileName, 'carved %r instead of a file name', got)
	eq(got.get_file_name(), ntfs.text_expected(f.name), 'carved name')
	eq(got.get_parent_directory(), parent, 'carved parent')
	for n, v in (('ctime', f.c), ('mtime', f.m), ('etime', f.e), ('atime', f.a)):
		check(ntfs.time_ok(getattr(got, 'get_' + n)(), v), 'carved %s of %r', n, f.name)
	eq((got.get_allocated_length(), got.get_file_size(), got.get_file_attributes(), got.get_packed_ea_size(), got.get_unpacked_ea_size_difference(), got.get_flags()), (f.alloc, f.size, f.fattr, f.ea, f.ea2, f.flags), 'carved fields of %r' % f.name)


def judge(slack, want):
	got = list(slack.carve())
	names = [g.get_file_name() if type(g) is Attributes.FileName else g for g in got]
	eq(names, [ntfs.text_expected(f.name) for f, _ in want], 'carved names')
	for g, (f, p) in zip(got, want):
		cmp_fn(g, f, p)


def t_carve(d, r):
	pieces = [gen_piece(d, d.int(0, 4)) for _ in range(d.pick((1, 1, 2, 3)))]
	want = [x for _, p in pieces for x in p]
	if len(pieces) == 1 and d.bool():
		v = pieces[0][0]
		val = bytearray(v) if d.bool() else v
	else:
		val = [bytearray(v) if d.bool() else v for v, _ in pieces]
	s = MFT.SlackSpace(val)
	judge(s, want)
	judge(s, want)
	if want:
		r.nontrivial(tuple(v for v, _ in pieces))
	r.label('overwritten-parent', any(p == 0xFFFFFFFFFFFFFFFF for _, p in want))
	r.label('odd', any(len(v) % 2 for v, _ in pieces))
	r.sample('%d pieces, names %r' % (len(pieces), [f.name[:12] for f, _ in want]))


def t_nothing(d, r):
	"""Near misses: one timestamp outside the era, forbidden characters, zero length, plain noise."""
	k = d.uni(0, 4)
	f = gen_value(d)
	raw = bytearray(f.value())
	if k == 0:
		i = d.uni(0, 3)
		bad = d.pick((0, LO - 1, HI + 1, (1 << 64) - 1, d.int(0, LO - 1), d.int(HI + 1, (1 << 64) - 1)))
		struct.pack_into('<Q', raw, 8 + 8 * i, bad)
	elif k == 1:
		pos = d.uni(0, raw[64] - 1)
		raw[66 + 2 * pos:68 + 2 * pos] = d.pick((b'/\x00', b'\x00\x00'))
		text = bytes(raw[66:66 + 2 * raw[64]]).decode('utf-16le', 'replace')
		if '/' not in text and '\x00' not in text:
			raise Discard()
	elif k == 2:
		raw[64] = 0
	elif k == 3:
		raw = bytearray(filler(d, 2 * d.int(0, 200)))
	else:
		raw = raw[:d.int(0, 39)]
	pre = filler(d, 2 * d.int(0, 30))
	post = filler(d, 2 * d.int(0, 30)) if k != 4 else b''
	val = pre + bytes(raw) + post
	c = candidates(val)
	if c and (k not in (1, 2) or c != [len(pre) + 8]):
		raise Discard()
	got = list(MFT.SlackSpace(val).carve())
	eq([g.get_file_name() for g in got], [], 'names carved from slack without an intact one (kind %d)' % k)
	eq(list(MFT.SlackSpace([val, val]).carve(True)), [], 'names carved from slack without an intact one')
	r.nontrivial(k, val)
	r.label('kind%d' % k)
	r.sample('kind %d, %d bytes' % (k, len(val)))


def t_partial(d, r):
	"""A left-over tail of a name before an intact value."""
	k = d.int(0, 30)
	text = ''.join(PRINTABLE[d.uni(0, len(PRINTABLE) - 1)] for _ in range(k))
	lead = d.pick((b'\xFF\xFF' * d.int(1, 6), b'\x16\x04' * d.int(1, 5), b'\x00\x30' * d.int(1, 3)))
	pad = b'\x00\x00' * d.int(0, 6)
	f = gen_value(d)
	vals = [f]
	val = lead + ntfs.u16(text) + pad
	pos = len(val)
	val += f.value()
	tspos = [pos + 8]
	if d.bool():
		g = gen_value(d)
		val += b'\x00' * (-len(val) % 8)
		tspos.append(len(val) + 8)
		vals.append(g)
		val += g.value()
	val += b'\x00' * 2 * d.int(0, 9)
	if candidates(val) != tspos:
		raise Discard()
	s = MFT.SlackSpace(val)
	judge(s, [(x, x.parent) for x in vals])
	got = list(s.carve(True))
	fns = [g for g in got if type(g) is Attributes.FileName]
	strs = [g for g in got if type(g) is str]
	eq(len(fns) + len(strs), len(got), 'types of carved items')
	eq([x.get_file_name() for x in fns], [ntfs.text_expected(x.name) for x in vals], 'carved names')
	if k >= 5:
		eq(strs, [text], 'partial name')
	else:
		eq(strs, [], 'partial name with too few characters (%r)' % text)
	r.label('partial', k >= 5)
	r.nontrivial(val)
	r.sample('partial %r' % text)


def t_record(d, r):
	"""Slack of base and extension records."""
	size = d.pick((1024, 4096))
	want = []
	frss = []
	for i in range(d.uni(1, 3)):
		for _ in range(20):
			v, planted = gen_piece(d, d.int(0, 2))
			if len(v) <= size - 250:
				break
		else:
			raise Discard()
		att = [ntfs.attr_resident(0x80, d.blob(d.int(0, 60)))]
		rec = ntfs.Record(20 + i, 1, 1, 0 if i == 0 else ntfs.ref(20, 1), attrs=att, size=size, usn=d.int(1, 0xFFFF))
		rec.build()
		# The slack starts right after the end marker (4 bytes), the piece a little later.
		gap = 2 * d.int(0, 20)
		if rec.end + 8 + gap + len(v) > size or len(v) % 2:
			raise Discard()
		if planted and planted[0][1] == 0xFFFFFFFFFFFFFFFF:
			raise Discard()
		rec.slack = b'\x00' * gap + v
		prot, plain, end = rec.build()
		if len(candidates(plain[end + 4:])) != len(planted):
			raise Discard()
		want += planted
		frss.append(MFT.FileRecordSegment(prot))
	fr = MFT.FileRecord(frss[0], frss[1:])
	got = [x for s in fr.slack() for x in s.carve()]
	eq([g.get_file_name() for g in got], [ntfs.text_expected(f.name) for f, _ in want], 'names carved from records')
	for g, (f, p) in zip(got, want):
		cmp_fn(g, f, p)
	if want:
		r.nontrivial(tuple(f.name for f, _ in want), size, len(frss))
	r.sample('%d records, %d names' % (len(frss), len(want)))


TESTS = [
	Test('carve', t_carve, 36000, shards=4, qsec=25),
	Test('nothing', t_nothing, 32000, shards=1, qsec=25),
	Test('partial', t_partial, 24000, shards=1, qsec=25),
	Test('record', t_record, 24000, shards=2, qsec=25),
]
