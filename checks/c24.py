"""C24: exFAT boot region, chains and contents."""
import struct
import uuid
from checks import Test
from vlib.engine import *
from vlib.sparse import Sparse
from vlib import exfat as X
from dfir_ntfs.addons import exFAT as E

RULE = ('Generated geometries (sector and cluster sizes, one or two tables, gaps) written by an independent writer with a correct checksum, then with one damaged byte or field, with a damaged main region and a good or '
	'damaged backup; chains with loops, bad, free and out-of-range links; chained and contiguous streams read with all size classes. Non-trivial: a refused region, a backup in use, or a stream of two or more clusters. '
	'Distinct by image content.')

FLASH = uuid.UUID('{0A0C7E46-3399-4021-90C8-FA6D389C4BA2}')


def gen_geo(d, small=False):
	shift = d.pick((9, 9, 9, 10, 11, 12))
	cshift = d.pick((0, 1, 3, d.int(0, 25 - shift)))
	if small:
		cshift = d.pick((0, 0, 1, 2))
	need = (1 << 20) // ((1 << shift) << min(cshift, 20 - shift))
	count = d.pick((d.int(64, 4000) + need, d.int(1, 1 << 24) + need, 0xFFFFFFF5)) if not small else max(need, 0) + d.int(40, 800)
	if d.chance(15):
		# The table has no spare entry.
		count = X.cdiv((count + 2) * 4, 1 << shift) * (1 << shift) // 4 - 2
		if count > 0xFFFFFFF5:
			raise Discard()
	nfats = d.int(1, 2)
	g = X.Geo(shift, cshift, count, fatoff=d.pick((24, 128, d.int(24, 5000))), nfats=nfats, fatextra=d.pick((0, 0, d.int(0, 50))), gap=d.pick((0, 0, d.int(0, 500), d.int(0, 1 << 20) if d.chance(20) else 0)), tail=d.pick((0, d.int(0, 100))))
	g.root = d.pick((2, count + 1, d.int(2, count + 1)))
	g.active = d.int(0, nfats - 1)
	if g.fatlen >= 1 << 32 or g.heap >= 1 << 32:
		raise Discard()
	return g


def gen_fields(d, g):
	oem = d.pick((b'', FLASH.bytes_le + d.blob(32), d.blob(48)))
	return dict(jmp=d.pick((b'\xEB\x76\x90', d.blob(3))), part=d.u(64), serial=d.u(32), rev=(1, d.int(0, 99)), flags=g.active | (d.u(16) & 0xFFFE if d.bool() else 0), drive=d.u(8), percent=d.pick((0, 100, 101, 255, d.u(8))), reserved=d.blob(7),
		code=d.blob(390), ebs={d.int(1, 8): d.blob(508) + d.blob(4)}, oem=oem, last=d.pick((b'', d.blob(48), FLASH.bytes_le + d.blob(32))))


def check_fields(b, g, f):
	fl = f['flags']
	o = f['oem'].ljust(48, b'\x00')
	flash = struct.unpack('<7L', o[16:44]) if o[:16] == FLASH.bytes_le else (None,) * 7
	for name, want in (('get_bs_jmpboot', f['jmp']), ('get_bs_fsname', b'EXFAT   '), ('get_mustbezero', bytes(53)), ('get_partitionoffset', f['part']), ('get_volumelength', g.length), ('get_fatoffset', g.fatoff), ('get_fatlength', g.fatlen),
		('get_clusterheapoffset', g.heap), ('get_clustercount', g.count), ('get_firstclusterofrootdirectory', g.root), ('get_volumeserialnumber', f['serial']), ('get_filesystemrevision', f['rev']),
		('get_volumeflags', (fl & 1 > 0, fl & 2 > 0, fl & 4 > 0, fl & 8 > 0)), ('get_bytespersector', g.bps), ('get_sectorspercluster', g.spc), ('get_numberoffats', g.nfats), ('get_driveselect', f['drive']),
		('get_percentinuse', f['percent'] if f['percent'] <= 100 else None), ('get_reserved', f['reserved']), ('get_bs_bootcode', f['code']), ('get_bs_signature', b'\x55\xAA'), ('get_oem_guid', uuid.UUID(bytes_le=o[:16])), ('get_oem_flash_parameters', flash)):
		eq(getattr(b, name)(), want, name)
	for i in range(1, 9):
		eq(b.get_ebs_signature(i), f['ebs'].get(i, bytes(508) + b'\x00\x00\x55\xAA')[508:512], 'signature of extended boot sector %d' % i)
	for i in (0, 9, -1):
		raises(ValueError, b.get_ebs_signature, 'extended boot sector %d' % i, i)


def bad_geo(d, g):
	"""Fields that break exactly one documented rule; they are written with a correct checksum."""
	k = d.pick(('fsname', 'sig', 'zero', 'length', 'fatoff', 'fatlen', 'heapsmall', 'count', 'rootsmall', 'rootbig', 'rev0', 'revminor', 'fats', 'active', 'shift', 'cshift', 'rev2'))
	p = lambda fmt, v: struct.pack(fmt, v)
	over = {'fsname': {3: d.pick((b'EXFAT  \x00', b'exFAT   ', b'NTFS    '))}, 'sig': {510: d.pick((b'\xAA\x55', b'\x00\x00'))}, 'zero': {d.int(11, 63): bytes([d.int(1, 255)])},
		'length': {72: p('<Q', d.pick((0, (1 << 20) // g.bps - 1, g.heap + g.count * g.spc - 1)))}, 'fatoff': {80: p('<L', d.pick((0, 23, g.heap, g.heap - g.fatlen * g.nfats + 1, 0xFFFFFFFF)))},
		'fatlen': {84: p('<L', d.pick((0, ((g.count + 2) * 4 - 1) // g.bps, (g.heap - g.fatoff) // g.nfats + 1)))}, 'heapsmall': {88: p('<L', d.int(0, g.fatoff + g.fatlen * g.nfats - 1))},
		'count': {92: p('<L', d.pick((0xFFFFFFF6, 0xFFFFFFFF, min(0xFFFFFFFF, g.fatlen * g.bps // 4 - 1))))}, 'rootsmall': {96: p('<L', d.int(0, 1))}, 'rootbig': {96: p('<L', d.pick((g.count + 2, 0xFFFFFFFF)))},
		'rev0': {104: bytes([0, 0])}, 'revminor': {104: bytes([d.int(100, 255), 1])}, 'fats': {110: bytes([d.pick((0, 3, 255))])}, 'active': {106: b'\x01\x00'}, 'shift': {108: bytes([d.pick((0, 8, 13, 255))])},
		'cshift': {109: bytes([d.int(26 - g.shift, 255)])}, 'rev2': {104: bytes([0, d.pick((2, 99))])}}[k]
	if k == 'active' and g.nfats == 2:
		k, over = 'rev0', {104: bytes([0, 0])}
	return k, over


def t_region(d, r):
	g = gen_geo(d)
	f = gen_fields(d, g)
	raw = X.region(g, f)
	b = E.BR(raw)
	check_fields(b, g, f)
	eq(b.get_checksum(), X.region_checksum(raw[:11 * g.bps]), 'checksum')
	# More bytes after the region do not matter; fewer do.
	E.BR(raw + d.blob(512))
	cut = d.pick((0, 512, 11 * g.bps, 12 * g.bps - 512, 12 * 512 if g.bps > 512 else 11 * 512, 12 * g.bps - 1))
	raises(E.BootRegionException, E.BR, 'region of %d bytes, sectors of %d' % (cut, g.bps), raw[:cut])
	# Any changed byte other than the volatile ones is detected.
	o = d.pick((d.int(0, 12 * g.bps - 1), d.int(0, 511), d.int(0, 119), 11 * g.bps + d.int(0, 11), 106, 107, 112))
	x = bytearray(raw)
	x[o] ^= 1 << d.int(0, 7)
	x = bytes(x)
	volatile = o in (106, 107, 112) or o >= 11 * g.bps + 12
	if not volatile:
		raises(E.BootRegionException, E.BR, 'changed byte %d' % o, x)
	elif o != 106:
		E.BR(x)
	# The strict form also wants the exact jump code.
	jmp = d.pick((b'\xEB\x76\x90', d.blob(3)))
	b = E.BR(X.region(g, dict(f, over={0: jmp})))
	if jmp == b'\xEB\x76\x90':
		b.validate(False)
	else:
		raises(E.BootRegionException, b.validate, 'jump code %r' % jmp, False)
	k, over = bad_geo(d, g)
	x = X.region(g, dict(f, over=over))
	raises(NotImplementedError if k == 'rev2' else E.BootRegionException, E.BR, 'region with a wrong %s' % k, x)
	r.label(k)
	r.nontrivial(raw[:120], k, o)
	r.sample('%d-byte sectors, %d clusters of %d bytes, heap at sector %d; changed byte %d; wrong %s' % (g.bps, g.count, g.cs, g.heap, o, k))


def t_backup(d, r):
	"""The main region when it is good, else the backup, else an error."""
	t = X.Tree(d, False)
	g = t.g
	s = t.image()
	other = X.Geo(g.shift, g.cshift, g.count, g.fatoff, g.nfats)
	how = [d.pick(('good', 'sum', 'byte', 'zero', 'version')) for _ in range(2)]
	for i, h in enumerate(how):
		o = t.offset + 12 * g.bps * i
		if h == 'sum':
			s.put(o, X.region(g, bad='sum'))
		elif h == 'byte':
			s.flip(o + d.pick((d.int(64, 105), d.int(0, 11 * g.bps - 1), 3)), 255)
		elif h == 'zero':
			s.put(o, bytes(12 * g.bps))
		elif h == 'version':
			s.put(o, X.region(g, dict(rev=(2, 0))))
		else:
			s.put(o, X.region(g, dict(serial=100 + i)))
	size = d.pick((None, g.size))
	good = [h == 'good' for h in how]
	# A damaged byte among the volatile ones keeps the region valid: the generator above avoids 106, 107; 112 is volatile.
	o = [t.offset + 12 * g.bps * i for i in (0, 1)]
	for i in (0, 1):
		s.seek(o[i])
		x = s.read(12 * g.bps)
		if how[i] == 'byte':
			good[i] = X.region_checksum(x[:11 * g.bps]) == struct.unpack_from('<L', x, 11 * g.bps)[0]
	backup = g.bps in (512, 4096)
	if good[0] or (good[1] and backup):
		p = E.FileSystemParser(s, t.offset, size)
		eq(bool(p.backup_used), not good[0], 'backup in use')
		use = 0 if good[0] else 1
		eq((p.br.get_clustercount(), p.cluster_size, p.data_area_offset, p.fat.fat_offset, p.fat.fat_size, p.last_valid_cluster), (g.count, g.cs, g.heap * g.bps, t.offset + (g.fatoff + g.fatlen * g.active) * g.bps, g.fatlen * g.bps, g.count + 1), 'geometry')
		if how[use] == 'good':
			eq(p.br.get_volumeserialnumber(), 100 + use, 'serial number')
	else:
		raises(E.FileSystemException, E.FileSystemParser, 'no good region (%s, %s), %d-byte sectors' % (how[0], how[1], g.bps), s, t.offset, size)
	if d.chance(20):
		# A copy where the backup of another sector size would be does not belong to this volume.
		s.put(t.offset, bytes(24 * g.bps))
		x = 12 * d.pick([z for z in (512, 4096) if z != g.bps])
		s.put(t.offset + x, X.region(g, dict(serial=7)))
		raises(E.FileSystemException, E.FileSystemParser, 'a region at %d, %d-byte sectors' % (x, g.bps), s, t.offset, size)
		r.label('misplaced')
	raises(ValueError, E.FileSystemParser, 'volume size', s, t.offset, d.int(0, (1 << 20) - 1))
	r.label('backup', good == [False, True])
	r.label('refused', not any(good))
	if not good[0]:
		r.nontrivial(how[0], how[1], g.count, g.shift, t.offset)
	r.sample('%d-byte sectors, main %s, backup %s' % (g.bps, how[0], how[1]))


def gen_table(d, last, n):
	tab = {}
	pool = sorted(set([2 + d.int(0, max(0, last - 2)) for _ in range(n)] + [2, last]))
	pool = [pool[i] for i in (d.perm(len(pool)) if d.chance(70) else range(len(pool)))]
	firsts, kinds = [], set()
	i = 0
	while i < len(pool):
		k = d.int(1, max(1, min(len(pool) - i, d.pick((3, 10, 60)))))
		ch = pool[i:i + k]
		i += k
		for a, b in zip(ch, ch[1:]):
			tab[a] = b
		kind = d.pickw([(50, 'eoc'), (8, 'loop'), (8, 'bad'), (5, 'zero'), (5, 'one'), (8, 'range'), (5, 'cross')])
		kinds.add(kind)
		tab[ch[-1]] = {'eoc': lambda: X.EOC, 'loop': lambda: d.pick(ch), 'bad': lambda: X.BAD, 'zero': lambda: 0, 'one': lambda: 1, 'range': lambda: d.pick((last + 1, last + 2, 0xFFFFFFF8, 0xFFFFFFFE, 0xFFFFFFF6, d.int(last + 1, X.EOC - 1))), 'cross': lambda: d.pick(pool)}[kind]()
		firsts.append(ch[0])
	return tab, firsts, pool, kinds


def ref_chain(first, tab, last, limit):
	if first in (0, 1):
		return []
	if first == X.BAD:
		return None
	out = [first]
	while True:
		c = out[-1]
		if c > last or not limit(c):
			return None
		v = tab.get(c, 0)
		if v in out or v in (0, 1, X.EOC):
			return out
		if v == X.BAD:
			return out + [None]
		out.append(v)


def t_chain(d, r):
	last = d.pick((d.int(2, 5000), d.int(2, 200)))
	if d.chance(1):
		# A long chain.
		last = d.int(3000, 9000)
		pool = [2 + i for i in d.perm(last - 1)][:d.int(1500, 3000)]
		tab, firsts, kinds = dict(zip(pool, pool[1:])), pool[:1], {'long'}
		tab[pool[-1]] = d.pick((X.EOC, X.EOC, X.BAD, pool[d.int(0, len(pool) - 1)]))
	else:
		tab, firsts, pool, kinds = gen_table(d, last, d.pick((3, 20, 150)))
	tab[0], tab[1] = 0xFFFFFF00 | d.pick((0xF8, d.u(8))), X.EOC
	raw = b''.join(struct.pack('<L', tab.get(i, 0)) for i in range(last + 1))
	size = X.cdiv(len(raw), 512) * 512
	if d.chance(15) and size > 512:
		size = d.int(1, size // 512) * 512
	off = d.pick((0, 1, d.int(0, 1 << 30))) * 512
	s = Sparse(off + size if d.chance(90) else off + d.int(0, size))
	s.put(off, raw[:size])
	fat = E.FAT(s, off, size, last)
	raises(E.FileAllocationTableException, E.FAT, 'unaligned table offset', s, off + d.int(1, 511), size, last)
	raises(E.FileAllocationTableException, E.FAT, 'bad table size', s, off, d.pick((0, 256, size + d.int(1, 511))), last)
	limit = lambda n: 4 * n + 4 <= size and off + 4 * n + 4 <= s.size
	lens = []
	for first in firsts + [d.pick(pool), last, last + 1, 0, 1, X.BAD, X.EOC, 2, d.int(0, last + 3)]:
		want = ref_chain(first, tab, last, limit)
		if want is None:
			raises(E.FileAllocationTableException, fat.chain, 'chain from %d' % first, first)
		else:
			eq(fat.chain(first), want, 'chain from %d' % first)
			lens.append(len(want))
	for c in [0, 1, last, last + 1, 1 << 30] + [pool[i] for i in d.sample(len(pool), min(5, len(pool)))]:
		if c <= last and limit(c):
			eq(fat.get_element(c), tab.get(c, 0), 'table entry %d' % c)
		else:
			raises(E.FileAllocationTableException, fat.get_element, 'table entry %d' % c, c)
	if limit(0):
		eq(fat.get_media_type(), tab[0] & 0xFF, 'media type')
	# The bitmap.
	n = last - 1
	bm = d.blob(X.cdiv(n, 8) + d.int(0, 3))
	b = E.Bitmap(bm, last)
	for c in [0, 1, 2, 3, 9, 10, last, last + 1, last + 8, d.int(0, last + 20)]:
		want = bool(bm[(c - 2) // 8] >> ((c - 2) % 8) & 1) if 2 <= c <= last else None
		got = b.is_allocated(c)
		eq(got, want, 'allocation of %d' % c)
	# A bitmap that is too short says nothing about the clusters it does not cover.
	k = d.int(0, len(bm))
	c = d.int(2, last)
	eq(E.Bitmap(bm[:k], last).is_allocated(c), bool(bm[(c - 2) // 8] >> ((c - 2) % 8) & 1) if (c - 2) // 8 < k else None, 'allocation of %d by a bitmap of %d bytes' % (c, k))
	for k in kinds:
		r.label(k)
	if lens and max(lens) > 1:
		r.nontrivial(raw)
	r.sample('last cluster %d, chains of %s' % (last, sorted(lens)[-4:]))


def t_content(d, r):
	t = X.Tree(d, False)
	g = t.g
	last = g.count + 1
	free = [c for c in range(2, min(last, 400)) if c not in t.used] + [last - i for i in range(3) if last - i not in t.used]
	tab, firsts, pool, kinds = {}, [], [], set()
	order = d.sample(len(free), min(14, len(free)))
	cl = [free[i] for i in order]
	i = 0
	while i < len(cl):
		k = d.int(1, 5)
		ch = cl[i:i + k]
		i += k
		for a, b in zip(ch, ch[1:]):
			tab[a] = b
		kind = d.pickw([(60, 'eoc'), (10, 'loop'), (10, 'bad'), (5, 'zero'), (10, 'range')])
		tab[ch[-1]] = {'eoc': X.EOC, 'loop': ch[0], 'bad': X.BAD, 'zero': 0, 'range': last + 1}[kind]
		kinds.add(kind)
		firsts.append(ch[0])
	t.tab.update(tab)
	for c in set(cl) | set(x + 1 for x in cl if x + 1 in free):
		t.clusters[c] = d.blob(g.cs)
	s = t.image()
	p0 = E.FileSystemParser(s, t.offset)
	limit = size = None
	if d.chance(20):
		# Cut the volume behind what the parser needs to start.
		limit = g.cluster_offset(d.pick(cl)) + d.int(0, g.cs)
		need = max(g.cluster_offset(c) + g.cs for c in t.fat_chain(t.root) + t.bm)
		if limit < max(need, 1 << 20):
			limit = None
		elif d.bool():
			size = limit
		else:
			s.size = t.offset + limit
	p = E.FileSystemParser(s, t.offset, size)
	for c in cl[:4] + sorted(t.bits)[:3] + [2, last, d.int(2, last)]:
		eq(bool(p.bm.is_allocated(c)), c in t.bits, 'cluster %d is allocated (bitmap %d in force)' % (c, g.active))
	long = False
	for first in firsts + [0, 1, last, last + 1, d.pick(free)]:
		for contiguous in (False, True):
			total = g.cs * d.int(0, 4)
			for fs in [None, 0, 1, total, total + 1, max(0, total - 1), d.int(0, 5 * g.cs)]:
				if contiguous and fs is None:
					raises(ValueError, p.read_chain, 'contiguous without a size', first, None, True)
					continue
				if not contiguous and t.fat_chain(first) is None:
					raises(E.FileAllocationTableException, p.read_chain, 'chain from %d' % first, first, fs)
					continue
				want = t.data(first, fs, contiguous, limit)
				if want is None:
					raises(ValueError, p.read_chain, 'clusters outside', first, fs, contiguous)
					continue
				got = p.read_chain(first, fs, contiguous)
				check(got == want, 'stream at %d (size %s, contiguous %s): %d bytes, expected %d; first difference at %s', first, fs, contiguous, len(got), len(want), next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None))
				long |= len(want) > g.cs
	for k in kinds:
		r.label(k)
	r.label('cut', limit is not None)
	if long:
		r.nontrivial(repr(tab), g.cs, t.offset)
	r.sample('%d-byte clusters at %d, table %d in force, %d streams' % (g.cs, t.offset, g.active, len(firsts)))


def t_far(d, r):
	"""Volumes far larger than any test file: clusters anywhere, offsets beyond 32 bits."""
	shift = d.pick((9, 9, 10, 12))
	cshift = d.int(0, 16 - shift)
	count = d.pick((d.int(1 << 20, 0xFFFFFFF5), d.int(1 << 22, 1 << 28), 0xFFFFFFF5))
	nfats = d.int(1, 2)
	g = X.Geo(shift, cshift, count, fatoff=d.int(24, 200), nfats=nfats, gap=d.int(0, 3))
	g.active = d.int(0, nfats - 1)
	if g.heap >= 1 << 32:
		raise Discard()
	last = count + 1
	cand = [2, last, last - 1] + [d.int(2, last) for _ in range(8)]
	for x in (1 << 31, 1 << 32, 1 << 33):
		c = (x - g.heap * g.bps) // g.cs + 2
		cand += [c - 1, c, c + 1]
	cand += [c for k in (31, 32) for c in ((1 << k) // 4 - 1, (1 << k) // 4, (1 << k) // 4 + 1)]
	cand = sorted(set(c for c in cand if 2 <= c <= last))
	cand = [cand[i] for i in d.perm(len(cand))]
	g.root, bm, pool = cand[0], cand[1], cand[2:14]
	off = d.pick((0, d.int(0, 1 << 20), d.int(1 << 22, 1 << 40))) * 512
	vol = Sparse(off + g.size)
	vol.put(off, X.region(g, dict(flags=g.active)))
	fat = off + (g.fatoff + g.active * g.fatlen) * g.bps
	entry = lambda c, v: vol.put(fat + 4 * c, struct.pack('<L', v))
	entry(g.root, X.EOC)
	entry(bm, X.EOC)
	vol.put(off + g.cluster_offset(g.root), X.bitmap_entry(g.active, bm, X.cdiv(count, 8)))
	for a, b in zip(pool, pool[1:] + [X.EOC]):
		entry(a, b)
	blobs = {c: struct.pack('<LQ', c, g.cluster_offset(c)) + d.blob(4) for c in pool}
	for c in pool:
		vol.put(off + g.cluster_offset(c), blobs[c])
		vol.put(off + g.cluster_offset(c) + g.cs - 16, blobs[c])
	p = E.FileSystemParser(vol, off, d.pick((None, g.size)))
	eq(p.fat.chain(pool[0]), pool, 'chain')
	size = d.pick((None, d.int(1, g.cs * len(pool))))
	got = p.read_chain(pool[0], size)
	full = lambda c: blobs[c] + bytes(g.cs - 32) + blobs[c]
	want = b''.join(full(c) for c in pool)[:size]
	check(got == want, 'clusters %s at %d: %d bytes, expected %d; first difference at %s', pool, off, len(got), len(want), next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None))
	c = d.pick(pool)
	n = d.int(1, g.cs)
	eq(p.read_chain(c, n, True), full(c)[:n], 'contiguous stream at cluster %d' % c)
	if g.cs <= 1024 and d.chance(30):
		# A long contiguous stream.
		k = d.int(65000, 70000)
		c = d.int(2, max(2, last - k))
		n = (min(k, last + 1 - c) - 1) * g.cs + d.int(1, g.cs)
		vol.put(off + g.cluster_offset(c) + n - 9, b'the end!!')
		vol.put(off + g.cluster_offset(c) + d.int(0, n - 9), b'somewhere')
		got = p.read_chain(c, n, True)
		vol.seek(off + g.cluster_offset(c))
		check(got == vol.read(n), 'contiguous stream of %d bytes at cluster %d: %d bytes (or other bytes)', n, c, len(got))
		r.label('many clusters')
	r.label('beyond 4 GiB', g.size > 1 << 32)
	r.label('table beyond 4 GiB', g.fatlen * g.bps > 1 << 32)
	r.nontrivial(off, count, shift, cshift, repr(pool))
	r.sample('%d clusters of %d bytes at %d' % (count, g.cs, off))


TESTS = [
	Test('region', t_region, 1750, 15000),
	Test('backup', t_backup, 1000, 8000),
	Test('chain', t_chain, 7500, 80000),
	Test('content', t_content, 2250, 20000),
	Test('far', t_far, 300, 3000),
]
