"""C32: printed summaries."""
import contextlib, io, struct, uuid
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import Attributes, MFT, WSL
from dfir_ntfs.addons import FAT, exFAT

RULE = ('A case packs one attribute value of any type with generated fields, captures what its summary prints and compares the lines with lines made from the packed fields; type and flag names are compared with the published names for '
	'generated codes. Non-trivial: a summary of at least two lines with a field that is neither zero nor all-ones, or a code with several names. Distinct by value.')

TYPES = {0x10: '$STANDARD_INFORMATION', 0x20: '$ATTRIBUTE_LIST', 0x30: '$FILE_NAME', 0x40: '$OBJECT_ID', 0x50: '$SECURITY_DESCRIPTOR', 0x60: '$VOLUME_NAME', 0x70: '$VOLUME_INFORMATION', 0x80: '$DATA', 0x90: '$INDEX_ROOT',
	0xA0: '$INDEX_ALLOCATION', 0xB0: '$BITMAP', 0xC0: '$REPARSE_POINT', 0xD0: '$EA_INFORMATION', 0xE0: '$EA', 0x100: '$LOGGED_UTILITY_STREAM'}
ALPHA = ('abcdefghijklmnopqrstuvwxyz', 'ABCxyz0189 ._-$~!', '\u0416\u0434\u00e9\u00df\u4e2d\u6587\u3042', 'a\U0001f600b')


def printed(obj):
	out = io.StringIO()
	with contextlib.redirect_stdout(out):
		obj.print_information()
	return [x.strip() for x in out.getvalue().split('\n') if x.strip()]


def lines(obj, want, what):
	got = printed(obj)
	want = [x.strip() for x in want]
	for a, b in zip(got, want):
		eq(a, b, 'printed line of ' + what)
	eq(len(got), len(want), 'number of printed lines of ' + what)


def fn_lines(fn, f):
	return ['$FILE_NAME:', 'Parent directory: %d' % f.parent, 'File created: %s' % fn.get_ctime(), 'File modified: %s' % fn.get_mtime(), 'File last accessed: %s' % fn.get_atime(), '$MFT entry modified: %s' % fn.get_etime(),
		'Allocated length, file size: %d, %d' % (f.alloc, f.size), 'File attributes: %s' % hex(f.fattr), 'Packed EA size, unpacked EA size difference: %d, %d' % (f.ea, f.ea2), 'Flags: %s' % hex(f.flags),
		'File name (decoded): %s' % f.name]


def gen_fn(d):
	t = [ntfs.gen_ft(d) for _ in range(4)]
	return ntfs.FN(d.u(64), d.name(1, 30, ALPHA).strip() or 'x', d.u(8), *t, alloc=d.int(0, (1 << 63) - 1), size=d.int(0, (1 << 63) - 1), fattr=d.u(32), ea=d.u(16), ea2=d.u(16))


def t_print(d, r):
	k = d.uni(0, 13)
	raw = b''
	if k == 0:
		t = [ntfs.gen_ft(d) for _ in range(4)]
		w = [d.u(32) for _ in range(6)]
		quota, usn = d.u(64), d.u(64)
		n = d.pick((72, 72, 48))
		raw = ntfs.si_value(*t, *w, quota, usn, length=n)
		o = Attributes.StandardInformation(raw)
		opt = lambda v: v if n == 72 else None
		lines(o, ['$STANDARD_INFORMATION:', 'File created: %s' % o.get_ctime(), 'File modified: %s' % o.get_mtime(), 'File last accessed: %s' % o.get_atime(), '$MFT entry modified: %s' % o.get_etime(), 'File attributes: %s' % hex(w[0]),
			'Current version, maximum versions: %d, %d' % (w[2], w[1]), 'Is case sensitive: %s' % bool(w[2] & 1), 'Storage reserve ID: %d' % (w[2] >> 8 & 15), 'Known folder tag: %d' % (w[2] >> 1 & 7),
			'Class ID, owner ID, security ID: %s, %s, %s' % (w[3], opt(w[4]), opt(w[5])), 'Quota charged: %s' % opt(quota), 'Update sequence number: %s' % opt(usn)], 'standard information')
	elif k == 1:
		f = gen_fn(d)
		raw = f.value()
		o = Attributes.FileName(raw)
		lines(o, fn_lines(o, f), 'file name')
	elif k == 2:
		u = uuid.UUID(bytes=d.blob(16))
		extra = d.blob(d.pick((0, 48)))
		raw = u.bytes_le + extra
		o = Attributes.ObjectID(raw)
		lines(o, ['$OBJECT_ID:', 'GUID: %s' % u, 'GUID timestamp: %s' % o.get_timestamp()] + (['Extra data is set'] if extra else []), 'object identifier')
	elif k == 3:
		raw = d.blob(d.int(0, 70))
		c, name, unit = d.pick(((Attributes.Data, '$DATA', 1), (Attributes.SecurityDescriptor, '$SECURITY_DESCRIPTOR', 1), (Attributes.LoggedUtilityStream, '$LOGGED_UTILITY_STREAM', 1), (Attributes.Bitmap, '$BITMAP', 8)))
		lines(c(raw), [name + ':', 'Length (%s): %d' % ('bytes' if unit == 1 else 'bits', len(raw) * unit)], name)
		lines(Attributes.Data(None), ['$DATA'], 'absent data')
	elif k == 4:
		ents = [(d.pick((0x10, 0x30, 0x80, d.u(32))), d.name(1, 20, ALPHA).strip() or 'q' if d.bool() else None, d.u(16), d.u(64), d.u(64)) for _ in range(d.int(0, 5))]
		raw = ntfs.attrlist_value(ents)
		size = 'not set'
		if ents and ents[0][1] is None and d.bool():
			size = d.u(32)
			raw = raw[:26] + b'DC' + struct.pack('<L', size) + raw[32:]
		elif raw[26:28] == b'DC':
			raise Discard()
		want = ['$ATTRIBUTE_LIST:']
		for i, (t, n, inst, vcn, ref) in enumerate(ents, 1):
			want += ['Attribute #%d type code: %s, %s' % (i, hex(t), 'no name' if n is None else 'name: ' + n), 'Attribute #%d instance: %d, lowest VCN: %d, segment reference: %d' % (i, inst, vcn, ref)]
		lines(Attributes.AttributeList(raw), want + ['Last compacted size (in bytes): %s' % size], 'attribute list')
	elif k == 5:
		n = d.name(1, 20, ALPHA).strip() or 'v'
		raw = ntfs.u16(n)
		lines(Attributes.VolumeName(raw), ['$VOLUME_NAME:', 'Volume name: ' + n], 'volume name')
	elif k == 6:
		a, b, f = d.u(8), d.u(8), d.u(16)
		raw = ntfs.volinfo_value(a, b, f)
		lines(Attributes.VolumeInformation(raw), ['$VOLUME_INFORMATION:', 'Version: %d.%d' % (a, b), 'Flags: %s' % hex(f)], 'volume information')
	elif k in (7, 8):
		ents, body, vcns, names = [], [], [], []
		for _ in range(d.int(0, 4)):
			f = gen_fn(d)
			v = d.u(64) if d.chance(30) else None
			body.append(ntfs.index_entry(d.u(64), f.value(), 0, v))
			vcns.append(str(v) if v is not None else '-')
			names.append(f)
		v = d.u(64) if d.chance(30) else None
		body.append(ntfs.index_end(v))
		t = 0x30 if d.chance(80) else d.pick((0, 0x10, 0x31))
		rule, bs, blocks = d.u(32), d.u(32), d.u(32)
		large = d.bool()
		raw = ntfs.index_root_value(body, bs, blocks, t, rule, large)
		n = sum(len(x) for x in body)
		want = ['$INDEX_ROOT:', 'Indexed attribute type code: %s' % hex(t), 'Collation rule: %d' % rule, 'Bytes and blocks per the index allocation buffer: %d, %d' % (bs, blocks), 'Index header:',
			'Relative offset to the first index entry: 16', 'Relative offset to the first free byte: %d' % (16 + n), 'Bytes available: %d' % (16 + n), 'Flags: %s' % hex(1 if large else 0)]
		if t == 0x30:
			if names:
				want.append('File names in the index:')
			for f in names:
				want += fn_lines(Attributes.FileName(f.value()), f)
		got = printed(Attributes.IndexRoot(raw))
		tail = got[len(want):]
		eq(got[:len(want)], want, 'printed index root')
		if t == 0x30:
			# The list of subnodes; whether the end entry is a part of it is not judged.
			check(not vcns and not tail or len(tail) == 1 and tail[0].startswith('Subnode VCN list: ' + ' '.join(vcns)), 'printed subnodes: %s for %s', tail, vcns)
		else:
			eq(tail, [], 'lines of another index')
	elif k == 9:
		size, bs = d.int(4096, 1 << 40), d.pick((None, 4096))
		f = MFT.FragmentedFile(io.BytesIO(bytes(8192)), 0, 4096, [(0, 1 << 28)], size)
		try:
			o = Attributes.IndexAllocation(f)
		except MFT.MasterFileTableException:
			raise Discard()
		got = printed(o)
		eq(got[0].rstrip(':'), '$INDEX_ALLOCATION', 'printed index allocation')
		eq(got[-1], 'Length: %d' % size, 'printed length of the index allocation')
		raw = struct.pack('<Q', size)
	elif k == 10:
		tag, n = d.u(32), d.int(0, 60)
		raw = struct.pack('<LHH', tag, n, 0) + (b'' if tag >> 31 else d.blob(16)) + d.blob(n)
		lines(Attributes.ReparsePoint(raw), ['$REPARSE_POINT:', 'Reparse tag: %s (is Microsoft: %s)' % (hex(tag), bool(tag >> 31)), 'Reparse data length: %d' % n], 'reparse point')
	elif k == 11:
		a, b, c = d.u(16), d.u(16), d.u(32)
		raw = struct.pack('<HHL', a, b, c)
		lines(Attributes.EAInformation(raw), ['$EA_INFORMATION:', 'Packed EA size: %d' % a, 'Need EA count: %d' % b, 'Unpacked EA size: %d' % c], 'EA information')
	elif k == 12:
		items = [(d.name(1, 12, ('ABCDEFXYZ', 'LXATTRB')).encode(), d.u(8), d.blob(d.int(0, 40))) for _ in range(d.int(1, 4))]
		for i, (n, fl, v) in enumerate(items):
			e = struct.pack('<LBBH', 0, fl, len(n), len(v)) + n + b'\x00' + v
			e += bytes(-len(e) % 4)
			raw += struct.pack('<L', len(e) if i < len(items) - 1 else 0) + e[4:]
		got = [x.rstrip('\x00').strip() for x in printed(Attributes.EA(raw))]
		want = ['$EA:', 'Length (bytes): %d' % len(raw)]
		for i, (n, fl, v) in enumerate(items, 1):
			want += ['EA #%d name: %s' % (i, n.decode()), 'EA #%d flags: %s' % (i, hex(fl)), 'EA #%d value length (bytes): %d' % (i, len(v))]
		eq(got, want, 'printed extended attributes')
	else:
		mode, uid, gid, rdev = (d.u(32) for _ in range(4))
		ns = [d.int(0, 999999999) for _ in range(3)]
		s = [d.int(0, 1 << 34) for _ in range(3)]
		raw = struct.pack('<HHLLLLLLLQQQ', 0, 1, mode, uid, gid, rdev, *ns, *s)
		o = WSL.LXATTRB(raw)
		lines(o, ['WSL metadata:', 'Mode: %s' % hex(mode), 'UID/GID: %d/%d' % (uid, gid), 'Device ID: %s' % hex(rdev), 'File last accessed: %s' % o.get_atime(), 'File modified: %s' % o.get_mtime(), 'Inode changed: %s' % o.get_chtime()], 'WSL metadata')
	r.label('kind %d' % k)
	r.nontrivial(k, raw)
	r.sample('kind %d: %d bytes' % (k, len(raw)))


FATS = ((1, 'READ_ONLY'), (2, 'HIDDEN'), (4, 'SYSTEM'), (8, 'VOLUME_ID'), (0x10, 'DIRECTORY'), (0x20, 'ARCHIVE'))


def t_names(d, r):
	t = d.pick(sorted(TYPES)) if d.chance(70) else d.u(32)
	want = TYPES.get(t, hex(t))
	eq(MFT.ResolveAttributeType(t), want, 'name of attribute type %x' % t)
	v = d.blob(d.int(0, 30))
	name = d.name(1, 10, ALPHA) if d.bool() else None
	eq(MFT.AttributeRecordResident(t, name, v).type_str(), want, 'name of the type of a resident attribute')
	eq(MFT.AttributeRecordNonresident(t, name, ntfs.enc_runs([(5, 1)]), 0, 0, 10).type_str(), want, 'name of the type of a non-resident attribute')
	a = d.u(8)
	eq(FAT.ResolveFileAttributes(a), ' | '.join(n for b, n in FATS if a & b), 'FAT attributes %x' % a)
	a = d.u(16)
	eq(exFAT.ResolveFileAttributes(a), ' | '.join('UNKNOWN8_MACOS' if b == 8 else n for b, n in FATS if a & b), 'exFAT attributes %x' % a)
	r.nontrivial(t, a)
	r.sample('type %x, attributes %x' % (t, a))


TESTS = [
	Test('print', t_print, 240000, 240000),
	Test('names', t_names, 120000, 100000),
]
