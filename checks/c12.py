"""C12: locating and reading the file table of a volume."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs, ntfsvol
from vlib.sparse import Sparse
from checks.c08 import t_boot
from vlib.ntfs import ref, attr_resident, attr_nonresident, Record
from dfir_ntfs import MFT, BootSector

RULE = ('A case writes a volume (sector, cluster and record sizes, image offset) whose file table is contiguous, fragmented, or described by a resident or non-resident attribute list with extension records, '
	'and compares the file-like view of the table with the written table under a history of reads; invalid geometry must be refused; boot sectors with any field values are compared field by field. Non-trivial: the table has two or more runs, or large clusters. Distinct by image hash.')


def gen_records(d, frs, n, ft_name='f'):
	"""Protected record images for numbers 1..n-1 (0 is made later)."""
	segs = {}
	t = ntfs.Table(frs)
	t.system()
	for num in range(1, n):
		if num in (3, 5):
			segs[num] = t.records[num].build()[0]
		else:
			k = d.uni(0, 5)
			if k == 0:
				segs[num] = bytes(frs)
			elif k == 1:
				segs[num] = d.blob(frs)
			else:
				fn = ntfs.fn_value(ref(5, 5), *[ntfs.FT_2000] * 4, name='%s%d' % (ft_name, num))
				segs[num] = Record(num, d.int(1, 0xFFFF), d.uni(0, 1), attrs=[attr_resident(0x30, fn)], size=frs, usn=d.int(1, 0xFFFF), short=d.chance(20)).build()[0]
	return segs


def build(d, mode, damage=None):
	vol = ntfsvol.Volume(d)
	cs, frs = vol.cs, vol.frs
	n = d.int(8, 40)
	frags = {'simple': 1, 'frag': d.uni(2, 8), 'list': d.uni(3, 14), 'nrlist': d.uni(3, 14)}[mode]
	if mode != 'simple' and cs <= 4096 and d.chance(3):
		n = d.int(200, 600)
		frags = d.int(40, 80 if mode == 'frag' else 200)
		d = vol.d = d.sub()
	size = n * frs
	runs, lcns = vol.layout(size, frags)
	segs = gen_records(d, frs, n)
	per = max(1, -(-frs // cs))
	si = attr_resident(0x10, ntfs.si_value(*[ntfs.FT_2000] * 4))
	fn = attr_resident(0x30, ntfs.fn_value(ref(5, 5), *[ntfs.FT_2000] * 4, name='$MFT', flags=3))
	alloc = len(lcns) * cs
	if mode in ('simple', 'frag'):
		data = attr_nonresident(0x80, runs, alloc=alloc, size=size)
		attrs = [si, fn, data]
		if d.bool():
			attrs.append(attr_nonresident(0x80, ntfs.gen_runs(d, 2), name='other', size=5, alloc=512))
		if d.bool():
			attrs.insert(0, attr_resident(0x80, b'named', name='x'))
		rec0 = Record(0, 1, 1, attrs=attrs, size=frs, usn=d.int(1, 0xFFFF))
		segs[0] = rec0.build()[0]
		pieces = 1
		attrlist_lcns = None
	else:
		# Split at run boundaries; the first piece must cover records 0-5, each next piece's record must be covered already.
		starts = [0]
		for _, l in runs:
			starts.append(starts[-1] + l)
		bounds = []
		for i in range(1, len(runs)):
			if starts[i] * cs >= 6 * frs and d.bool():
				bounds.append(i)
		if not bounds:
			cand = [i for i in range(1, len(runs)) if starts[i] * cs >= 6 * frs]
			if not cand:
				raise Discard()
			bounds = [d.pick(cand)]
		bounds = bounds[:8]
		cuts = [0] + bounds + [len(runs)]
		parts = [(starts[a], runs[a:b]) for a, b in zip(cuts, cuts[1:])]
		first = attr_nonresident(0x80, parts[0][1], 0, parts[1][0] - 1, alloc, size)
		entries = [(0x10, None, 0, 0, ref(0, 1)), (0x30, None, 1, 0, ref(0, 1)), (0x80, None, 2, 0, ref(0, 1))]
		used = set()
		for k, (low, rr) in enumerate(parts[1:]):
			limit = low * cs // frs  # records completely below this piece
			cand = [x for x in range(6, limit) if x not in used] + [x for x in (1, 2, 4) if x not in used]
			if not cand:
				raise Discard()
			num = d.pick(cand)
			used.add(num)
			seq = d.int(1, 0xFFFF)
			ln = sum(l for _, l in rr)
			a = attr_nonresident(0x80, rr, low, low + ln - 1, 0, 0)
			extra = [attr_nonresident(0x80, [(3, 1)], name='n', size=1, alloc=cs)] if d.chance(20) else []
			segs[num] = Record(num, seq, 1, ref(0, 1), attrs=extra + [a], size=frs, usn=d.int(1, 0xFFFF)).build()[0]
			entries.append((0x80, None, 0, low, ref(num, seq)))
		if d.bool():
			entries.append((0x80, 'zz', 7, 0, ref(0, 1)))
		entries.append((0xB0, None, 5, 0, ref(0, 1)))
		if d.chance(30):
			head, rest = entries[:2], entries[2:]
			entries = head + [rest[i] for i in d.perm(len(rest))]
		al = ntfs.attrlist_value(entries)
		if mode == 'list':
			alattr = attr_resident(0x20, al)
		else:
			need = max(1, -(-len(al) // cs))
			alruns, alcl = ntfs.split_runs(d, need, vol.pool, d.uni(1, 3))
			alattr = attr_nonresident(0x20, alruns, alloc=need * cs, size=len(al))
			attrlist_lcns = (alcl, al)
		rec0 = Record(0, 1, 1, attrs=[si, alattr, fn, first], size=frs, usn=d.int(1, 0xFFFF))
		if sum(map(len, rec0.attrs)) > rec0.room():
			raise Discard()
		segs[0] = rec0.build()[0]
		pieces = len(parts)
		if damage == 'child':
			num = d.pick(sorted(used))
			segs[num] = bytes(frs)
	table = b''.join(segs[i] for i in range(n))
	body = bytearray(d.blob(vol.total * cs))
	ntfsvol.store(vol, body, lcns, table)
	if mode == 'nrlist':
		ntfsvol.store(vol, body, attrlist_lcns[0], attrlist_lcns[1])
	boot = bytearray(ntfs.boot_sector(vol.bps, vol.spc if vol.spc <= 128 else 0, vol.total * vol.spc, runs[0][0], d.uni(1, vol.total), vol.frs_code(), d.pick((1, -12)), d.u(64)))
	if vol.spc > 1 and d.chance(15):
		# The alternative encoding of the cluster size.
		boot[13] = 256 - (vol.spc.bit_length() - 1)
		if vol.spc.bit_length() - 1 == 0:
			boot[13] = 1
	body[0:512] = boot
	# Cluster 0 never belongs to the table in this writer.
	image = d.blob(vol.voff) + bytes(body)
	return vol, image, table, runs, pieces, segs


def t_read(d, r):
	mode = d.pick(('simple', 'frag', 'list', 'nrlist'))
	vol, image, table, runs, pieces, segs = build(d, mode)
	f = ntfs.ROFile(image)
	fs = MFT.FileSystemParser(f, vol.voff)
	eq(fs.cluster_size, vol.cs, 'cluster size')
	eq(fs.tell(), 0, 'initial position')
	got = bytes(fs.read())
	eq(len(got), len(table), 'size of the table (%s)' % mode)
	check(got == table, 'the table differs (%s, runs %s)', mode, runs)
	for _ in range(d.int(1, 6)):
		pos = d.int(0, len(table) + 10)
		n = d.int(0, 3 * vol.cs)
		fs.seek(pos)
		got = bytes(fs.read(n))
		eq(got, table[pos:pos + n], 'table bytes at %d+%d (%s)' % (pos, n, mode))
	fs.seek(0, 2)
	eq(fs.tell(), len(table), 'end of the table')
	# The table parser works on the view.
	mft = MFT.MasterFileTableParser(fs)
	for num, seg in segs.items():
		try:
			a = bytes(mft.get_file_record_segment_by_number(num).frs_data)
		except MFT.MasterFileTableException:
			a = None
		try:
			b = bytes(MFT.FileRecordSegment(seg, suggested_mft_number=num).frs_data)
		except MFT.MasterFileTableException:
			b = None
		eq(a, b, 'record %d through the volume' % num)
	if len(runs) >= 2:
		r.nontrivial(hash(image))
	r.label(mode)
	r.label('pieces>=3', pieces >= 3)
	r.sample('%s: sector %d cluster %d record %d offset %d runs %s pieces %d' % (mode, vol.bps, vol.cs, vol.frs, vol.voff, runs[:4], pieces))


def t_reject(d, r):
	mode = d.pick(('simple', 'frag', 'list', 'nrlist'))
	k = d.uni(0, 7)
	if k == 7 and mode in ('list', 'nrlist'):
		vol, image, table, runs, pieces, segs = build(d, mode, 'child')
		what = 'missing extension record'
	else:
		vol, image, table, runs, pieces, segs = build(d, mode)
		b = bytearray(image)
		o = vol.voff
		what = 'kind %d' % k
		if k == 0:
			b[o + 3 + d.uni(0, 7)] ^= 0x20
		elif k == 1:
			b[o + 13] = 0
		elif k == 2:
			b[o + 11] = d.int(1, 255)
		elif k == 3:
			struct.pack_into('<Q', b, o + 48, 0)
		elif k == 4:
			b[o + 64] = 0
		elif k == 5:
			# The first record is torn.
			b[o + runs[0][0] * vol.cs + 510] ^= 0xFF
		elif k == 6:
			b = b[:o + d.uni(0, 511)]
		else:
			b[o + 12] = d.pick((0, 1, 3))
		image = bytes(b)
	raises((MFT.MasterFileTableException, BootSector.BootSectorException), lambda: MFT.FileSystemParser(ntfs.ROFile(image), vol.voff), 'invalid volume (%s, %s)' % (mode, what))
	r.nontrivial(k, hash(image))
	r.label('kind%d' % k)
	r.sample('%s %s' % (mode, what))


def t_geometry(d, r):
	"""Large clusters and sectors, far positions: a small table on a huge volume."""
	bps = 256 * d.pick((2, 2, 4, 8, 16, 2 * d.int(1, 127)))
	e = d.uni(0, 12)
	code = d.uni(1, 128) if e <= 7 and d.chance(30) else 1 << e if e <= 7 else 256 - e
	spc = code if code <= 128 else 1 << (256 - code)
	cs = bps * spc
	frs = d.pick((1024, 4096))
	fcode = -(frs.bit_length() - 1)
	if d.bool() and cs <= 4096 and cs in (1024, 4096):
		frs, fcode = cs, 1
	n = d.int(8, 24)
	size = n * frs
	need = -(-size // cs)
	lead = -(-frs // cs)
	lens = []
	left = need
	while left:
		k = max(lead, d.int(1, left)) if not lens else d.int(1, left)
		k = min(k, left)
		lens.append(k)
		left -= k
		if len(lens) > 4:
			lens[-1] += left
			left = 0
	top = (1 << d.pick((20, 32, 33, 40, 44))) // cs + 64
	runs, taken = [], []
	for k in lens:
		for _ in range(40):
			lcn = d.int(1, top * 8)
			if all(lcn + k <= a or lcn >= b for a, b in taken):
				break
		else:
			raise Discard()
		taken.append((lcn, lcn + k))
		runs.append((lcn, k))
	segs = gen_records(d, frs, n)
	data = attr_nonresident(0x80, runs, alloc=need * cs, size=size)
	segs[0] = Record(0, 1, 1, attrs=[attr_resident(0x10, ntfs.si_value(*[ntfs.FT_2000] * 4)), data], size=frs, usn=d.int(1, 0xFFFF)).build()[0]
	table = b''.join(segs[i] for i in range(n))
	voff = d.pick((0, 512, 1 << 20, 1 << 32, (1 << 41) + 4096, 12345 * 512))
	total = max(b for a, b in taken) + d.int(1, 100)
	img = Sparse(voff + total * cs)
	mirr, serial, idx = d.int(1, 1 << 40), d.u(64), d.pick((-12, 1, 2))
	boot = bytearray(ntfs.boot_sector(512, 1, total * spc, runs[0][0], mirr, fcode, idx, serial))
	boot[11], boot[12], boot[13] = 0, bps // 256, code
	img.put(voff, boot)
	pos = 0
	for lcn, k in runs:
		img.put(voff + lcn * cs, table[pos:pos + k * cs])
		pos += k * cs
	fs = MFT.FileSystemParser(img, voff)
	eq((fs.boot.get_bytes_per_sector(), fs.boot.get_sectors_per_cluster(), fs.cluster_size, fs.boot.get_total_number_of_sectors(), fs.boot.get_first_mft_cluster(), fs.boot.get_first_mftmirr_cluster(), fs.boot.get_file_record_segment_size(), fs.boot.get_index_record_size(), fs.boot.get_serial_number()),
		(bps, spc, cs, total * spc, runs[0][0], mirr, frs, idx * cs if idx > 0 else 4096, serial), 'geometry')
	check(bytes(fs.read()) == table, 'the table differs (cluster %d, runs %s)', cs, runs)
	for _ in range(d.int(1, 4)):
		pos, k = d.int(0, size + 5), d.int(0, 3 * frs)
		fs.seek(pos)
		eq(bytes(fs.read(k)), table[pos:pos + k], 'table bytes at %d+%d' % (pos, k))
	if len(runs) >= 2 or cs > 16384:
		r.nontrivial(bps, code, frs, tuple(runs), voff)
	r.label('large clusters', cs > 65536)
	r.label('beyond 4 GiB', any(x * cs > 1 << 32 for x, _ in runs))
	r.sample('sector %d cluster %d (code %d) record %d offset %d runs %s' % (bps, cs, code, frs, voff, runs))


TESTS = [
	Test('boot', t_boot, 15000, shards=1, qsec=15),
	Test('geometry', t_geometry, 4500, shards=3, qsec=20),
	Test('read', t_read, 18000, shards=6, qsec=30),
	Test('reject', t_reject, 9000, shards=2, qsec=30),
]
