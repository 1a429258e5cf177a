"""C21: FAT12/16/32 geometry, chains and contents."""
import struct
from checks import Test
from vlib.engine import *
from vlib.sparse import Sparse
from vlib import fat as W
from dfir_ntfs.addons import FAT as F

RULE = ('Generated geometries of all three variants (including the edges between them, unusual sector and cluster sizes, all three sector counts, alternative active tables) whose boot sector, allocation table and '
	'clusters are written by an independent writer at a generated image offset; chains with fragments, loops, bad, reserved, free and out-of-range links; reads with all size classes; boot sectors with generated '
	'damage. Non-trivial: a chain of two or more clusters, a geometry on or next to an edge, or a refused boot sector. Distinct by geometry and chain.')

F.WARN_FUNC = lambda *a, **k: None


def gen_geo(d, typ=None, small=False):
	typ = typ or d.pick((12, 16, 32))
	bps = d.pick((512, 512, 512, 1024, 2048, 4096))
	spc = 1 << d.int(0, 7)
	if d.chance(3):
		spc = 256
	if typ == 12:
		count = d.pick((1, 2, 3, 4084, 4083, 4079, 4078, d.int(1, 4084), d.int(1, 400)))
	elif typ == 16:
		count = d.pick((4085, 4086, 4087, 65524, 65523, d.int(4085, 65524)))
	else:
		count = d.pick((65525, 65526, d.int(65525, 1 << 22), d.int(65525, (1 << 28) - 20), 65524, 4085, 4084, d.int(1, 65524), 1))
	if small:
		if typ == 32:
			count = d.int(20, 70000)
		spc = d.pick((1, 1, 2, 4))
	rootent = d.pick((512, 16, 224, 112, d.int(1, 2000), 1)) if typ != 32 else 0
	g = W.Geo(typ, bps, spc, count, rsvd=d.pick((1, 32, 2, d.int(1, 200), 65535 if d.chance(5) else 8)), nfats=d.pick((2, 2, 1, 3, d.int(1, 15))), rootent=rootent,
		extra_fat=d.pick((0, 0, 1, d.int(0, 30))), slack=d.int(0, spc - 1), hidden=d.u(32))
	if typ != 32 and g.fatsz > 65535:
		raise Discard()
	return g


def gen_fields(d, g):
	f = dict(jmp=d.pick((b'\xEB\x3C\x90', b'\xE9' + d.blob(2), b'\xEB' + d.blob(2), d.blob(3))), oem=d.blob(8), media=d.pick((0xF0, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF)),
		spt=d.u(16), heads=d.u(16), drv=d.u(8), dirty=d.pick((0, 1, 2, 3, d.u(8))), bootsig=d.pick((0x29, 0x29, 0x28, 0, d.u(8))), volid=d.u(32), label=d.blob(11), fstype=d.blobnz(8),
		flags=d.pick((0, 0, 0x80, 0x81, 0x82, 1, d.u(16))), rootclus=d.pick((2, d.int(2, g.count + 1), d.u(32) | 2)), fsinfo=d.int(1, 65535), bk=d.int(1, 65535), reserved=d.blob(12), fill=d.pick((b'\x00', b'\xF6')))
	where = [32] if g.totsec < 1 << 32 else []
	if g.totsec < 65536:
		where.append(16)
	if g.typ == 32 and (not where or d.chance(20)):
		where = [64]
		f['bootsig'] = 0x29
	if not where:
		raise Discard()
	f['where'] = d.pick(where)
	f['sig'] = b'\x55\xAA'
	if d.chance(10) and f['jmp'][0] in (0xEB, 0xE9):
		f['sig'] = d.blob(2)
	elif f['jmp'][0] in (0xEB, 0xE9) or True:
		f['sig'] = b'\x55\xAA'
	return f


def active(g, f):
	if g.typ != 32 or not f.get('flags', 0) & 0x80:
		return 0
	n = f['flags'] & 0xF
	return n if n < g.nfats else 0


def check_boot(b, g, f):
	eq(F.GetCountOfClusters(b), g.count, 'count of clusters')
	eq((F.IsFileSystem32(b, True), g.typ != 32 and F.IsFileSystem16(b, True), g.typ != 32 and F.IsFileSystem12(b, True)), (g.typ == 32, g.typ == 16, g.typ == 12), 'variant for %d clusters' % g.count)
	eq(F.IsFileSystemUnusual12Or16(g.count, True), 4079 <= g.count <= 4086, 'edge case')
	x = f['fstype'] if f['where'] != 64 else struct.pack('<Q', g.totsec)
	is32 = g.typ == 32
	want = [('get_bs_jmpboot', f['jmp']), ('get_bs_oemname', f['oem']), ('get_bpb_bytspersec', g.bps), ('get_bpb_secperclus', g.spc), ('get_bpb_rsvdseccnt', g.rsvd), ('get_bpb_numfats', g.nfats),
		('get_bpb_rootentcnt', g.rootent), ('get_bpb_totsec16', g.totsec if f['where'] == 16 else 0), ('get_bpb_totsec32', g.totsec if f['where'] == 32 else 0), ('get_bpb_media', f['media']),
		('get_bpb_fatsz16', 0 if is32 else g.fatsz), ('get_bpb_secpertrk', f['spt']), ('get_bpb_numheads', f['heads']), ('get_bpb_hiddsec', g.hidden), ('get_signature', f['sig']),
		('get_bpb_fatsz32', g.fatsz if is32 else None), ('get_bpb_extflags', (f['flags'] & 0xF, f['flags'] & 0x80 > 0) if is32 else (None, None)), ('get_bpb_fsver', 0 if is32 else None),
		('get_bpb_rootclus', f['rootclus'] if is32 else None), ('get_bpb_fsinfo', f['fsinfo'] if is32 else None), ('get_bpb_bkbootsec', f['bk'] if is32 else None), ('get_bpb_reserved', f['reserved'] if is32 else None),
		('get_bs_drvnum', f['drv']), ('get_bs_dirty_flags', f['dirty']), ('is_volume_dirty', (f['dirty'] & 1 > 0, f['dirty'] & 2 > 0)), ('get_bs_bootsig', f['bootsig']),
		('get_bs_extfields', (f['volid'], f['label'], x) if f['bootsig'] == 0x29 else (f['volid'], None, None) if f['bootsig'] == 0x28 else (None, None, None)),
		('get_bs_totsec64', g.totsec if f['where'] == 64 else None),
		('fat_offset_and_size', (g.fat_offset(active(g, f)), g.fatsz * g.bps, g.count + 1))]
	for name, val in want:
		got = getattr(b, name)()
		eq(got, val, '%s of a FAT%d volume' % (name, g.typ))


def t_boot(d, r):
	g = gen_geo(d)
	f = gen_fields(d, g)
	raw = W.boot(g, f)
	b = F.BSBPB(raw)
	check_boot(b, g, f)
	# The same through the file system parser, at an offset.
	off = d.pick((0, 1, d.int(0, 1 << 20), d.int(0, 1 << 40))) * 512
	s = Sparse(off + g.size)
	s.put(off, raw)
	p = F.FileSystemParser(s, off, d.pick((None, g.size)) if g.size >= 4096 else None)
	eq((p.fat_type, p.cluster_size, p.data_area_offset, p.fat.fat_offset, p.fat.fat_size, p.fat.fat_type, p.fat.last_valid_cluster), (g.typ, g.cs, g.data, off + g.fat_offset(active(g, f)), g.fatsz * g.bps, g.typ, g.count + 1), 'parser geometry')
	# A wrong signature without a jump code is only accepted when asked for.
	bad = d.blob(3)
	if bad[0] in (0xEB, 0xE9):
		bad = b'\x00' + bad[1:]
	f2 = dict(f, jmp=bad, sig=d.pick((b'\x00\x00', b'\xAA\x55', b'\x55\x00')))
	raw2 = W.boot(g, f2)
	raises(F.BootSectorException, F.BSBPB, 'no signature', raw2)
	check_boot(F.BSBPB(raw2, True), g, f2)
	# Other documented refusals.
	edits = [(11, struct.pack('<H', d.pick((0, 256, 511, 513, 8192, 1536)))), (13, bytes([d.pick((3, 5, 6, 7, 127, 129, 255))])), (14, b'\x00\x00'), (16, b'\x00')]
	o, v = d.pick(edits)
	x = raw[:o] + v + raw[o + len(v):]
	if x != raw:
		s2 = Sparse(g.size)
		s2.put(0, x)
		raises(F.BootSectorException, F.FileSystemParser, 'boot sector with %s at %d' % (v.hex(), o), s2)
	for cut in (0, 511, 513, 90):
		raises(F.BootSectorException, F.BSBPB, 'boot sector of %d bytes' % cut, (raw * 2)[:cut])
	if g.typ == 32:
		x = raw[:42] + struct.pack('<H', d.int(1, 65535)) + raw[44:]
		raises(NotImplementedError, F.BSBPB, 'file system version', x)
		for o, n, name, vals in ((44, 4, 'get_bpb_rootclus', (0, 1)), (48, 2, 'get_bpb_fsinfo', (0,)), (50, 2, 'get_bpb_bkbootsec', (0,))):
			x = raw[:o] + d.pick(vals).to_bytes(n, 'little') + raw[o + n:]
			raises(F.BootSectorException, getattr(F.BSBPB(x), name), name)
	x = raw[:21] + bytes([d.pick((0, 1, 0xF1, 0xF7, 0x80))]) + raw[22:]
	raises(F.BootSectorException, F.BSBPB(x).get_bpb_media, 'media')
	edge = g.count in (4079, 4084, 4085, 4086, 65524, 65525)
	r.label('edge', edge)
	r.label('fat%d' % g.typ)
	r.label('64-bit count', f['where'] == 64)
	if edge or g.spc > 1:
		r.nontrivial(raw)
	r.sample('FAT%d %d clusters of %d bytes, count in field %d, offset %d' % (g.typ, g.count, g.cs, f['where'], off))


def t_badboot(d, r):
	"""A boot sector with damaged fields is either consistent with some geometry or refused with a documented error."""
	g = gen_geo(d)
	f = gen_fields(d, g)
	raw = bytearray(W.boot(g, f))
	for _ in range(d.int(1, 4)):
		o, n = d.pick(((11, 2), (13, 1), (14, 2), (16, 1), (17, 2), (19, 2), (22, 2), (32, 4), (36, 4), (42, 2), (66, 1), (82, 8), (44, 4), (510, 2), (0, 1), (38, 1)))
		v = d.pick((0, 1, (1 << (8 * n)) - 1, d.u(8 * n), d.int(0, 300) & ((1 << (8 * n)) - 1)))
		raw[o:o + n] = v.to_bytes(n, 'little')
	if d.chance(4):
		# No sector count at all, or only the unusual 64-bit one.
		raw[19:21], raw[32:36] = bytes(2), bytes(4)
		raw[38] = raw[66] = 0x29
		raw[82:90] = struct.pack('<Q', g.totsec)
	raw = bytes(raw) if d.chance(95) else d.blob(512)
	s = Sparse(1 << 20)
	s.put(0, raw)
	refused = False
	try:
		b = F.BSBPB(raw)
		p = F.FileSystemParser(s)
	except (F.BootSectorException, F.FileAllocationTableException, NotImplementedError, ValueError):
		refused = True
	except Exception as e:
		check(False, 'a damaged boot sector gave %s: %s (boot sector %s)', type(e).__name__, e, raw[:90].hex())
	if not refused:
		u16 = lambda o: struct.unpack_from('<H', raw, o)[0]
		u32 = lambda o: struct.unpack_from('<L', raw, o)[0]
		tot = u16(19) or u32(32) or (struct.unpack_from('<Q', raw, 82)[0] if raw[66] == 0x29 and not u16(22) else 0)
		fs = u16(22) or u32(36)
		spc = raw[13] or 256
		data = tot - u16(14) - raw[16] * fs - (W.cdiv(u16(17) * 32, u16(11)) if u16(22) else 0)
		eq(F.GetCountOfClusters(b), data // spc, 'count of clusters')
		n = data // spc
		eq(p.fat_type, 32 if not u16(22) else 16 if n >= 4085 else 12, 'variant of %d clusters' % n)
		check(u16(22) == 0 or 0 < n < 65525, 'a FAT12/16 volume of %d clusters was accepted', n)
	r.label('refused', refused)
	if refused:
		r.nontrivial(raw)
	r.sample('%s: %s' % ('refused' if refused else 'accepted', raw[:90].hex()))


def ref_chain(typ, first, get, last, limit):
	"""limit(n): whether entry n lies inside the table."""
	if first in (0, 1):
		return []
	if first == W.BAD[typ]:
		return None
	out = [first]
	cur = first
	while True:
		if cur > last or not limit(cur):
			return None
		v = get(cur)
		if v in out or v >= W.EOC[typ] or v in (0, 1):
			return out
		if v == W.BAD[typ]:
			return out + [None]
		out.append(v)
		cur = v


def gen_table(d, typ, last, n):
	"""A sparse table: several chains over the clusters 2..last, with all kinds of ends and links."""
	tab = {0: W.TOP[typ] & ~0xFF | d.pick((0xF8, 0xF0, d.int(0xF8, 0xFF))), 1: W.TOP[typ] & ~d.pick((0, 0, 8 << (typ - 8 if typ == 32 else typ - 4), 4 << (typ - 8 if typ == 32 else typ - 4), 12 << (typ - 8 if typ == 32 else typ - 4)))}
	pool = sorted(set([2 + d.int(0, max(0, last - 2)) for _ in range(n)] + [2, last, max(2, last - 1)]))
	pool = [c for c in pool if 2 <= c <= last]
	order = d.perm(len(pool)) if d.chance(70) else range(len(pool))
	pool = [pool[i] for i in order]
	firsts = []
	i = 0
	kinds = set()
	while i < len(pool):
		k = d.int(1, max(1, min(len(pool) - i, d.pick((3, 10, 60)))))
		ch = pool[i:i + k]
		i += k
		for a, b in zip(ch, ch[1:]):
			tab[a] = b
		kind = d.pickw([(50, 'eoc'), (8, 'loop'), (8, 'bad'), (5, 'zero'), (5, 'one'), (8, 'range'), (5, 'cross'), (3, 'self')])
		e = {'eoc': lambda: W.EOC[typ] + d.int(0, 7), 'loop': lambda: d.pick(ch), 'bad': lambda: W.BAD[typ], 'zero': lambda: 0, 'one': lambda: 1, 'range': lambda: min(W.BAD[typ] - 1, d.pick((last + 1, last + 2, W.BAD[typ] - 1, d.int(last, W.TOP[typ])))),
			'cross': lambda: d.pick(pool), 'self': lambda: ch[-1]}[kind]()
		kinds.add(kind)
		tab[ch[-1]] = e
		firsts.append(ch[0])
	return tab, firsts, pool, kinds


def t_chain(d, r):
	typ = d.pick((12, 16, 32))
	last = d.pick((d.int(2, 4000), 4085)) if typ == 12 else d.pick((d.int(2, 65520), 65525)) if typ == 16 else d.pick((d.int(2, 70000), d.int(2, 300)))
	tab, firsts, pool, kinds = gen_table(d, typ, last, d.pick((3, 20, 150)))
	tight = None
	if d.chance(20):
		# The table is just as large as its last entry needs.
		tight = d.int(1, 12 if typ == 12 else 20) * 512
		last = {12: (tight * 2 - 2) // 3, 16: tight // 2 - 1, 32: tight // 4 - 1}[typ]
		while typ == 12 and last + 1 + (last + 1) // 2 + 2 <= tight:
			last += 1
		if typ == 12:
			last = min(last, 4085)
		tab, firsts, pool, kinds = gen_table(d, typ, last, d.pick((3, 20, 150)))
		tab = {k: v for k, v in tab.items() if k <= last}
	elif last > 3000 and d.chance(2):
		# A long chain.
		pool = [2 + i for i in d.perm(last - 1)][:d.int(1500, 3000)]
		firsts, kinds = pool[:1], {'long'}
		tab = {0: tab[0], 1: tab[1]}
		tab.update(zip(pool, pool[1:]))
		tab[pool[-1]] = d.pick((W.EOC[typ], W.EOC[typ], W.BAD[typ], pool[d.int(0, len(pool) - 1)]))
	top = max(last, max(tab)) + 1
	junk = d.blob(7) if typ == 32 and d.bool() else None
	raw = W.encode_table(typ, [tab.get(i, 0) for i in range(top)], junk)
	size = W.cdiv(len(raw), 512) * 512
	if tight is not None:
		size = tight
	elif d.chance(15) and size > 512:
		size = d.int(1, size // 512) * 512
	off = d.pick((0, 512, d.int(0, 1 << 20) * 512))
	s = Sparse(off + size if d.chance(90) else off + d.int(0, size))
	s.put(off, raw[:size])
	fat = F.FAT(s, off, size, last, typ)
	raises(F.FileAllocationTableException, F.FAT, 'unaligned table offset', s, off + d.int(1, 511), size, last, typ)
	raises(F.FileAllocationTableException, F.FAT, 'bad table size', s, off, d.pick((0, 256, size + d.int(1, 511))), last, typ)
	width = {12: lambda n: n + n // 2 + 2, 16: lambda n: 2 * n + 2, 32: lambda n: 4 * n + 4}[typ]
	limit = lambda n: width(n) <= size and off + width(n) <= s.size
	get = lambda n: tab.get(n, 0)
	lens = []
	for first in firsts + [d.pick(pool), last, last + 1, 0, 1, W.BAD[typ], 2, d.int(0, last + 3)]:
		want = ref_chain(typ, first, get, last, limit)
		if want is None:
			raises(F.FileAllocationTableException, fat.chain, 'chain from %d' % first, first)
		else:
			got = fat.chain(first)
			eq(got, want, 'chain from %d' % first)
			lens.append(len(got))
	for c in d.sample(len(pool), min(5, len(pool))):
		c = pool[c]
		if limit(c):
			eq(fat.get_element(c), get(c), 'table entry %d' % c)
			eq(fat.is_allocated(c), get(c) != 0, 'allocated %d' % c)
	for c in (last, last + 1, last + 100, 1 << 28):
		if c > last or not limit(c):
			eq(fat.is_allocated(c), None, 'allocated %d (outside)' % c)
			raises(F.FileAllocationTableException, fat.get_element, 'table entry %d' % c, c)
	if limit(1):
		eq(fat.get_bpb_media(), tab[0] & 0xFF, 'media')
		if typ != 12:
			top = tab[1] >> (24 if typ == 32 else 12)
			eq(fat.is_volume_dirty(), top & 8 == 0, 'dirty')
			eq(fat.are_hard_errors_detected(), top & 4 == 0, 'errors')
	free = d.int(2, last)
	if limit(free):
		eq(fat.is_allocated(free), get(free) != 0, 'allocated %d' % free)
	r.label('tight table', tight is not None)
	r.label('loop', 'loop' in kinds or 'self' in kinds)
	r.label('bad', 'bad' in kinds)
	r.label('out of range', 'range' in kinds)
	r.label('fat%d' % typ)
	if lens and max(lens) > 1:
		r.nontrivial(raw)
	r.sample('FAT%d, last cluster %d, chains of %s' % (typ, last, sorted(lens)[-4:]))


def t_content(d, r):
	g = gen_geo(d, small=True)
	f = gen_fields(d, g)
	g.active = active(g, f)
	off = d.pick((0, 1, 2048, d.int(1, 1 << 34))) * 512
	v = W.Volume(g, f, off)
	if g.nfats > 1 and d.bool():
		v.stale_fats = d.blob(g.bps)
	if g.typ == 32:
		v.junk = d.blob(5)
	last = g.count + 1
	tab, firsts, pool, kinds = gen_table(d, g.typ, last, 12)
	v.tab = tab
	for c in pool:
		v.clusters[c] = d.blob(g.cs)
	s = v.image()
	cut = None
	if d.chance(15):
		cut = g.cluster_offset(d.pick(pool)) + d.int(0, g.cs)
	size = None
	if d.chance(40):
		size = g.size
		if cut is not None:
			size, cut = max(4096, cut), None
		if size < 4096:
			size = None
	if cut is not None:
		s.size = off + cut
	p = F.FileSystemParser(s, off, size)
	end = g.size if cut is None else cut
	long = False
	for first in firsts + [0, 1, d.int(2, last)]:
		want = ref_chain(g.typ, first, lambda n: tab.get(n, 0), last, lambda n: True)
		total = g.cs * len(want or [])
		sizes = [None, 0, total, total + 1, max(0, total - 1), g.cs, g.cs + 1, g.cs - 1, d.int(0, total + g.cs)]
		for fs in [None] + [sizes[i] for i in d.sample(len(sizes), 3)]:
			if want is None:
				raises(F.FileAllocationTableException, p.read_chain, 'chain from %d' % first, first, fs)
				continue
			used = want if fs is None else want[:W.cdiv(fs, g.cs)]
			lim = min(end, size or end)
			broken = [c for c in used if c is not None and g.cluster_offset(c) + g.cs > lim]
			if broken:
				raises(ValueError, p.read_chain, 'cluster %d outside' % broken[0], first, fs)
				continue
			data = b''.join(v.clusters.get(c, bytes(g.cs)) if c is not None else bytes(g.cs) for c in used)
			if fs is not None:
				data = data[:fs]
			got = p.read_chain(first, fs)
			check(got == data, 'chain from %d, size %s: %d bytes, expected %d; first difference at %s', first, fs, len(got), len(data), next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), None))
			long |= len(used) > 1
	r.label('fat%d' % g.typ)
	r.label('bad cluster', 'bad' in kinds)
	r.label('cut', cut is not None or size not in (None, g.size))
	r.label('alternative table', g.active > 0)
	if long:
		r.nontrivial(repr(tab), g.typ, g.cs, off)
	r.sample('FAT%d clusters of %d bytes at %d, %d chains' % (g.typ, g.cs, off, len(firsts)))


def t_far(d, r):
	"""Volumes far larger than any test file: clusters anywhere, offsets beyond 32 bits."""
	bps = d.pick((512, 512, 1024, 4096))
	spc = 1 << d.int(0, 7)
	count = d.pick((d.int(1 << 20, (1 << 28) - 20), d.int(1 << 24, (1 << 28) - 20), 65525))
	typ = 32
	if d.chance(20):
		typ, count = 16, d.int(60000, 65524)
	g = W.Geo(typ, bps, spc, count, rsvd=d.int(1, 100), nfats=d.int(1, 3), rootent=512 if typ == 16 else 0)
	if g.typ == 16 and g.fatsz > 65535:
		raise Discard()
	where = 32 if g.totsec < 1 << 32 else 64
	if where == 64 and typ != 32:
		raise Discard()
	off = d.pick((0, d.int(0, 1 << 20), d.int(1 << 22, 1 << 40))) * 512
	vol = Sparse(off + g.size)
	vol.put(off, W.boot(g, dict(where=where, bootsig=0x29, flags=0)))
	last = count + 1
	pool = [last, last - 1, 2] + [d.int(2, last) for _ in range(8)]
	# Clusters on both sides of the 2^31 and 2^32 offsets.
	for x in (1 << 31, 1 << 32, 1 << 33):
		c = (x - g.data) // g.cs + 2
		pool += [c, c + 1, c - 1]
	pool = sorted(set(c for c in pool if 2 <= c <= last))
	pool = [pool[i] for i in d.perm(len(pool))][:12]
	es = typ // 8
	for a, b in zip(pool, pool[1:] + [W.EOC[typ]]):
		vol.put(off + g.fat_offset(0) + a * es, b.to_bytes(es, 'little'))
	blobs = {c: struct.pack('<LQ', c, g.cluster_offset(c)) + d.blob(4) for c in pool}
	for c in pool:
		vol.put(off + g.cluster_offset(c), blobs[c])
		vol.put(off + g.cluster_offset(c) + g.cs - 16, blobs[c])
	p = F.FileSystemParser(vol, off, d.pick((None, g.size)))
	eq(p.fat_type, typ, 'variant')
	k = d.int(0, len(pool) - 1)
	eq(p.fat.chain(pool[k]), pool[k:], 'chain')
	size = d.pick((None, d.int(1, g.cs * (len(pool) - k))))
	got = p.read_chain(pool[k], size)
	want = b''.join(blobs[c] + bytes(g.cs - 32) + blobs[c] for c in pool[k:])[:size]
	check(got == want, 'chain of clusters %s at %d: %d bytes, expected %d; first difference at %s', pool[k:], off, len(got), len(want), next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None))
	r.label('beyond 4 GiB', g.size > 1 << 32)
	r.label('64-bit count', where == 64)
	r.nontrivial(off, count, bps, spc, repr(pool))
	r.sample('FAT%d, %d clusters of %d bytes at %d' % (typ, count, g.cs, off))


def t_fsinfo(d, r):
	a, b, r1, r2 = d.u(32), d.u(32), d.blob(480), d.blob(12)
	raw = W.fsinfo(a, b, r1, r2)
	x = F.FSINFO(raw)
	eq((x.get_fsi_free_count(), x.get_fsi_nxt_free(), x.get_fsi_reserved1(), x.get_fsi_reserved2(), x.get_fsi_signatures()), (a, b, r1, r2, (0x41615252, 0x61417272, 0xAA550000)), 'FSINFO')
	o = d.pick((0, 1, 2, 3, 484, 485, 486, 487, 508, 509, 510, 511))
	bad = bytearray(raw)
	bad[o] ^= d.int(1, 255)
	raises(F.FileSystemInfoException, F.FSINFO, 'signature byte %d' % o, bytes(bad))
	r.nontrivial(raw)
	r.sample('free %d next %d' % (a, b))


TESTS = [
	Test('boot', t_boot, 12000, 200000),
	Test('badboot', t_badboot, 24000, 400000),
	Test('chain', t_chain, 6000, 80000),
	Test('content', t_content, 6000, 80000),
	Test('far', t_far, 1200, 20000),
	Test('fsinfo', t_fsinfo, 1000, 10000),
]
