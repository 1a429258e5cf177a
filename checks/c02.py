"""C02: attribute enumeration in a file record segment."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import MFT, Attributes

RULE = ('A case builds one record holding 0-12 resident/non-resident attributes with generated types, names, values, run lists, gaps and padding and compares the '
	'enumeration (type, name, value or runs/VCNs/size) and slack with the writer model; the reject family plants one inconsistent header field in one attribute. '
	'Non-trivial: at least two attributes, or one inconsistent field. Distinct by record bytes.')

KNOWN = {0x10: ('$STANDARD_INFORMATION', 'StandardInformation'), 0x20: ('$ATTRIBUTE_LIST', 'AttributeList'), 0x30: ('$FILE_NAME', 'FileName'), 0x40: ('$OBJECT_ID', 'ObjectID'),
	0x50: ('$SECURITY_DESCRIPTOR', 'SecurityDescriptor'), 0x60: ('$VOLUME_NAME', 'VolumeName'), 0x70: ('$VOLUME_INFORMATION', 'VolumeInformation'), 0x80: ('$DATA', 'Data'),
	0x90: ('$INDEX_ROOT', 'IndexRoot'), 0xB0: ('$BITMAP', 'Bitmap'), 0xC0: ('$REPARSE_POINT', 'ReparsePoint'), 0xD0: ('$EA_INFORMATION', 'EAInformation'), 0xE0: ('$EA', 'EA'), 0x100: ('$LOGGED_UTILITY_STREAM', 'LoggedUtilityStream')}
TYPES = (0x80, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0x100)


class RA(object):
	pass


def gen_attr(d, room, instance):
	a = RA()
	a.type = d.pick(TYPES) if d.chance(90) else d.int(1, 0xFFFFFFFE)
	a.name = d.odd_name(1, 12) if d.chance(40) else None
	a.resident = d.chance(60)
	gap = d.uni(0, 2) * 2 if d.chance(10) else 0
	tail = d.uni(0, 2) if d.chance(10) else 0
	flags = d.pick((0, 1, 0x4000, 0x8000, 0xFFFF))
	if a.resident:
		n = d.int(0, min(room, 300)) if d.chance(90) else d.int(0, max(0, room - 24))
		a.value = d.blobnz(n) if d.bool() else d.blob(n)
		a.raw = ntfs.attr_resident(a.type, a.value, a.name, instance, flags, d.uni(0, 1), gap=gap, tail=tail)
	else:
		a.runs = ntfs.gen_runs(d, d.int(0, 6), first_zero=True)
		total = sum(l for _, l in a.runs)
		a.lowest = 0 if d.chance(60) else d.int(0, 1 << 40)
		a.highest = max(a.lowest, a.lowest + total - 1) if d.chance(80) else d.int(a.lowest, (1 << 63))
		a.size = d.int(0, (1 << 62))
		alloc = d.int(a.size, (1 << 63) - 1)
		vdl = d.int(0, a.size)
		cu = d.pick((0, 0, 0, 4))
		a.raw = ntfs.attr_nonresident(a.type, a.runs, a.lowest, a.highest, alloc, a.size, vdl, a.name, instance, flags, cu, pairs=ntfs.enc_runs(a.runs, d), gap=gap, tail=tail)
	return a


def gen_record(d, minimum=0):
	rec = ntfs.Record(size=d.pick((1024, 4096)), short=d.chance(15), usn=d.u(16), seq=d.u(16), flags=d.uni(0, 3))
	n = d.int(minimum, 12)
	attrs = []
	room = rec.room()
	for i in range(n):
		a = gen_attr(d, room - 24, i)
		if len(a.raw) > room:
			break
		room -= len(a.raw)
		attrs.append(a)
	if d.chance(20) and room >= 24:
		# Fill the record up to the very end (or a few bytes before it).
		left = (room - 24 - d.uni(0, 2) * 8) & ~7
		if left >= 0:
			a = RA()
			a.type, a.name, a.resident, a.value = 0x80, None, True, d.blobnz(left)
			a.raw = ntfs.attr_resident(0x80, a.value, None)
			attrs.append(a)
	rec.attrs = [a.raw for a in attrs]
	rec.slack = d.blob(rec.size)
	rec.end_fake = d.bool()
	return rec, attrs


def compare(got, a, i):
	eq(got.type_code, a.type, 'type of attribute %d' % i)
	eq(got.name, ntfs.text_expected(a.name) if a.name else None, 'name of attribute %d' % i)
	eq(got.type_str(), 'x' if False else (KNOWN[a.type][0] if a.type in KNOWN else ('$INDEX_ALLOCATION' if a.type == 0xA0 else hex(a.type))), 'type text')
	if a.resident:
		check(type(got) is MFT.AttributeRecordResident, 'attribute %d is not resident', i)
		eq(bytes(got.value), a.value, 'value of attribute %d' % i)
		v = got.value_decoded()
		eq(type(v).__name__, KNOWN[a.type][1] if a.type in KNOWN else 'GenericAttribute', 'decoded class of attribute %d' % i)
		eq(bytes(v.value), a.value, 'decoded value of attribute %d' % i)
	else:
		check(type(got) is MFT.AttributeRecordNonresident, 'attribute %d is not non-resident', i)
		eq(got.lowest_vcn, a.lowest, 'lowest VCN of attribute %d' % i)
		eq(got.highest_vcn, a.highest, 'highest VCN of attribute %d' % i)
		eq(got.file_size, a.size, 'size of attribute %d' % i)
		eq(list(got.data_runs), a.runs, 'runs of attribute %d' % i)


def t_enumerate(d, r):
	rec, attrs = gen_record(d)
	raw, plain, end = rec.build()
	frs = MFT.FileRecordSegment(raw)
	slack_first = d.bool()
	if slack_first:
		s = bytes(frs.get_slack().value)
	got = list(frs.attributes())
	eq(len(got), len(attrs), 'number of attributes')
	for i, a in enumerate(attrs):
		compare(got[i], a, i)
	if not slack_first:
		s = bytes(frs.get_slack().value)
	eq(s, plain[end + 4:], 'slack')
	fr = MFT.FileRecord(frs, [])
	eq(len(list(fr.attributes())), len(attrs), 'number of attributes of the file record')
	sl = list(fr.slack())
	eq([bytes(x.value) for x in sl], [plain[end + 4:]], 'slack of the file record')
	if len(attrs) >= 2:
		r.nontrivial(raw)
	r.label('full-record', end + 16 > rec.size)
	r.label('nonresident', any(not a.resident for a in attrs))
	r.sample('size=%d attrs=%s' % (rec.size, [(hex(a.type), a.name, len(a.value) if a.resident else a.runs) for a in attrs][:4]))


def t_reject(d, r):
	rec, attrs = gen_record(d, 1)
	if not attrs:
		raise Discard()
	k = d.uni(0, len(attrs) - 1)
	a = attrs[k]
	buf = bytearray(a.raw)
	pre = sum(len(x.raw) for x in attrs[:k])
	used = rec.header_len()[1] + sum(len(x.raw) for x in attrs) + 8
	left = used - rec.header_len()[1] - pre  # from this attribute to the first free byte
	name_end = None
	noff = struct.unpack_from('<H', buf, 10)[0]
	if a.name:
		name_end = noff + len(ntfs.u16(a.name))
	w = d.uni(0, 9)
	exc = MFT.AttributeException
	if w == 0:
		v = d.pick((d.int(0, 7), len(buf) + d.uni(1, 7), left + 8 - left % 8 if left % 8 else left + 8, 0xFFFFFFF8, 0x80000000))
		struct.pack_into('<L', buf, 4, v)
		what = 'record length %d' % v
	elif w == 1:
		v = d.int(2, 255)
		buf[8] = v
		what = 'form code %d' % v
	elif w == 2:
		if not a.name:
			raise Discard()
		base = 24 if a.resident else 64
		v = d.pick((noff + 1, d.int(0, base - 1), left + 2 - len(ntfs.u16(a.name)) if False else 0xFFFE, left))
		if v % 2 == 0 and v >= base and v + len(ntfs.u16(a.name)) <= left:
			raise Discard()
		struct.pack_into('<H', buf, 10, v & 0xFFFF)
		what = 'name offset %d' % v
	elif w == 3:
		if not a.name:
			raise Discard()
		voff = struct.unpack_from('<H', buf, 20 if a.resident else 32)[0]
		v = d.int((voff - noff) // 2 + 1, 255)
		buf[9] = v
		what = 'name length %d' % v
	elif w == 4:
		if not a.resident:
			raise Discard()
		voff = struct.unpack_from('<H', buf, 20)[0]
		lo = (name_end if a.name else 24)
		v = d.pick((d.int(0, lo - 1), voff + d.uni(1, 7), d.int(len(buf) + 1, 0xFFFF), 0))
		struct.pack_into('<H', buf, 20, v)
		if v % 8 == 0 and v >= lo and v + len(a.value) <= len(buf):
			raise Discard()
		what = 'value offset %d' % v
	elif w == 5:
		if not a.resident:
			raise Discard()
		voff = struct.unpack_from('<H', buf, 20)[0]
		v = d.pick((len(buf) - voff + 1, d.int(len(buf) - voff + 1, 0xFFFFFFFF), len(buf)))
		struct.pack_into('<L', buf, 16, v)
		what = 'value length %d' % v
	elif w == 6:
		if a.resident:
			raise Discard()
		hi = d.int(0, 1 << 30)
		struct.pack_into('<QQ', buf, 16, hi + d.int(1, 1 << 30), hi)
		what = 'lowest VCN above highest VCN'
	elif w == 7:
		if a.resident:
			raise Discard()
		lo = name_end if a.name else 64
		v = d.pick((d.int(0, lo - 1), len(buf), d.int(len(buf), 0xFFFF)))
		struct.pack_into('<H', buf, 32, v)
		what = 'mapping pairs offset %d' % v
	elif w == 8:
		if a.resident:
			raise Discard()
		size = d.int(1, 1 << 40)
		al, sz, vd = d.pick(((size - 1, size, 0), (size, size, size + 1), (size, size, -1), (-1, -1, -1), (-2, size, 0)))
		struct.pack_into('<qqq', buf, 40, al, sz, vd)
		what = 'sizes %d %d %d' % (al, sz, vd)
	else:
		if a.resident:
			raise Discard()
		off = struct.unpack_from('<H', buf, 32)[0]
		bad = d.pick((b'\x10', b'\x09\x01', b'\x91\x01', b'\x11\x00\x05\x00', b'\x11\xff\x05\x00', b'\x88'))
		buf = buf[:off] + bad + b'\x00' * (-(off + len(bad)) % 8)
		if bad == b'\x88':
			buf = bytearray(buf[:off] + b'\x88' + b'\x01' * 15)
			buf = buf[:len(buf) & ~7]
			if len(buf) <= off:
				raise Discard()
		struct.pack_into('<L', buf, 4, len(buf))
		exc = MFT.MappingPairsException
		what = 'mapping pairs %r' % bytes(buf[off:off + 8])
	rec.attrs = [x.raw for x in attrs]
	rec.attrs[k] = bytes(buf)
	if sum(len(x) for x in rec.attrs) > rec.room():
		raise Discard()
	raw, plain, end = rec.build()
	frs = MFT.FileRecordSegment(raw)
	r.nontrivial(raw)
	r.label('field-%d' % w)
	r.sample('attribute %d of %d: %s' % (k, len(attrs), what))
	got = []
	try:
		for x in frs.attributes():
			got.append(x)
	except exc:
		pass
	else:
		raise Violation('inconsistent attribute accepted: ' + what)
	eq(len(got), k, 'attributes before the inconsistent one (%s)' % what)
	for i in range(k):
		compare(got[i], attrs[i], i)


def t_unterminated(d, r):
	"""The record ends without an end marker in the space left."""
	rec = ntfs.Record(size=1024, usn=5)
	room = rec.room()
	left = d.pick((0, 8))
	v = d.blobnz(room + 8 - 24 - left)
	a = ntfs.attr_resident(0x80, v)
	usa, first = rec.header_len()
	rec.attrs = []
	raw, plain, end = rec.build()
	buf = bytearray(plain)
	buf[first:first + len(a)] = a
	struct.pack_into('<L', buf, 24, 1024)
	for i in range(first + len(a), 1024):
		buf[i] = 0
	t = d.int(0, 0xFFFFFFFE)
	if left:
		struct.pack_into('<L', buf, first + len(a), t)
	ntfs.protect(buf, usa, 9)
	frs = MFT.FileRecordSegment(bytes(buf))
	r.nontrivial(bytes(buf))
	r.sample('no end marker, %d bytes left' % left)
	got = []
	try:
		for x in frs.attributes():
			got.append(x)
	except MFT.AttributeException:
		check(left == 8, 'complete record refused')
	else:
		check(left == 0, 'truncated attribute header accepted')
	eq(len(got), 1, 'attributes')
	eq(bytes(got[0].value), v, 'value')


TESTS = [
	Test('enumerate', t_enumerate, 180000, shards=5, qsec=30),
	Test('reject', t_reject, 120000, shards=3, qsec=30),
	Test('unterminated', t_unterminated, 3000, shards=1, qsec=10),
]
