"""C18: listing and selecting snapshots."""
import struct, uuid
from checks import Test
from checks import c17
from vlib.engine import *
from vlib import vss, ntfs
from dfir_ntfs import ShadowCopy as SC

RULE = ('Listing: generated control blocks (any number, order and mix of snapshot, store and free items, any field values) on one or two volumes; every accessor is compared with what was '
	'written. Selection: every snapshot of a simulated history by identifier and position, its metadata and (two volumes) contents, plus unknown, duplicated and half-recorded ones. '
	'Errors: one generated defect per case. Non-trivial: two or more snapshots listed, or a defect that applies. Distinct by layout.')


def u128(d):
	return uuid.UUID(bytes_le=d.blobnz(14) + struct.pack('<H', d.u(16)))


def t_listing(d, r):
	two = d.chance(25)
	n = d.int(0, 60) if d.chance(20) else d.int(0, 8)
	sim = vss.Sim(4000, 0, two)
	for i in range(n):
		s = sim.snapshot(u128(d), ntfs.gen_ft(d), d.u(64), [], False, d.u(64) if d.chance(30) else d.int(0, 30), d.u(8))
		s.size = d.int(1, (1 << 64) - 1)
	img = vss.gen_image(d, sim, [0], volume_offset=d.pick((0, 512, 1 << 20)), storage_offset=d.pick((0, 512, 1 << 20)) if two else 0, fs=d.pick((b'NTFS', b'ReFS')))
	nums = [img.alloc() for _ in range(d.int(1, 4))]
	items = []
	for s in sim.snaps:
		s.f3 = [d.u(64) for _ in range(8)]
		s.u2, s.u3 = d.u(16), d.u(32)
		items.append((s, vss.item2(s.prio, s.size, s.guid, s.pos, s.flags, s.ts, s.u2)))
		if not two:
			items.append((s, vss.item3(s.f3[0], s.guid, s.f3[1], s.f3[2], s.f3[3], s.f3[4], s.f3[5], s.f3[6], s.u3)))
	items += [(None, struct.pack('<L', 1) + d.blob(0x7C)) for _ in range(d.int(0, 5))]
	if n and d.chance(60):
		items = [items[i] for i in d.perm(len(items))]
	target = img.local if two else img.store
	if not items and d.bool():
		img.ctl_first, img.order = 0, []
	else:
		if two:
			nums = [img.alloc2() for _ in nums]
		img.ctl_first = img.place(items, nums, target, False)
	img.start = img.start_block(img.ctl_first, img.vol_guid, img.sto_guid)
	img.sctl_first = 0
	if two:
		img.sctl_first = img.place([(s, vss.item3(s.f3[0], s.guid, s.f3[1], s.f3[2], s.f3[3], s.f3[4], s.f3[5], s.f3[6], s.u3)) for s in sim.snaps], [img.alloc() for _ in range(d.int(1, 3))], img.store, d.bool()) if sim.snaps else 0
		img.sstart = img.start_block(img.sctl_first, img.sto_guid, img.sto_guid)
	want2 = [s for s, x in items if s is not None and x[0] == 2]
	if img.ctl_first == 0:
		want2 = []
	ps = []
	if two:
		if not img.store:
			img.store[1] = bytes(vss.BLK)
		ps.append(SC.ShadowParserTwoVolumes(img.volume(), img.storage(), img.volume_offset, None, img.storage_offset))
	ps.append(SC.ShadowParser(img.volume(), img.volume_offset))
	for p in ps:
		for rep in range(2):
			got = list(p.shadows())
			eq(len(got), len(want2), 'number of snapshots')
			for g, s in zip(got, want2):
				eq((g.stack_position, g.store_guid, g.volume_size), (s.pos, s.guid, s.size), 'snapshot')
				check(ntfs.time_ok(g.timestamp, s.ts), 'creation time of a snapshot: %r for %d', g.timestamp, s.ts)
		b = p.start_block
		f = img.start_fields
		eq((b.get_first_control_block_offset(), b.get_max_diff_area_size(), b.get_volume_guid(), b.get_storage_guid(), b.is_storage_local(), b.get_application_flags(), b.get_free_space_precopy_percentage(),
			b.get_hot_blocks_precopy_percentage(), b.get_hot_blocks_days(), b.get_protection_flags()),
			(img.ctl_first, f['maxdiff'], uuid.UUID(bytes_le=img.vol_guid), uuid.UUID(bytes_le=img.sto_guid), not two, f['app'], f['pre'], f['hot'], f['days'], f['prot']), 'start block')
		g2 = [x for c in p.control_blocks for x in c.items() if type(x) is SC.ControlBlockItem2]
		for x, s in zip(g2, want2):
			eq((x.get_snapshot_priority(), x.get_flags(), x.get_stack_position(), x.get_volume_size(), x.get_store_guid(), x.get_unknown_56()), (s.prio, s.flags, s.pos, s.size, s.guid, s.u2), 'item')
		cbs = p.control_blocks_storage if p.__class__ is SC.ShadowParserTwoVolumes else p.control_blocks
		g3 = [x for c in cbs for x in c.items() if type(x) is SC.ControlBlockItem3]
		if not two or p is ps[0]:
			eq(sorted((x.get_store_guid(), x.get_diff_area_block_offset(), x.get_application_information_block_offset(), x.get_location_description_block_offset(), x.get_bitmap_offset(), x.get_file_reference(),
				x.get_allocation_size(), x.get_previous_bitmap_offset(), x.get_unknown_80()) for x in g3), sorted((s.guid,) + tuple(s.f3[:7]) + (s.u3,) for s in sim.snaps) if img.ctl_first or two else [], 'store items')
	if two and want2:
		raises(NotImplementedError, ps[-1].select_shadow, 'selection without the storage volume', want2[0].guid)
	if not two:
		raises(NotImplementedError, SC.ShadowParserTwoVolumes, 'two volumes for local storage', img.volume(), img.volume(), img.volume_offset, None, img.volume_offset)
	if len(want2) >= 2:
		r.nontrivial(two, [(s.pos, s.guid.hex) for s in want2])
	r.label('two-volumes', two)
	r.sample('two=%s control blocks=%d snapshots=%s' % (two, len(nums), [(s.pos, s.size) for s in want2[:4]]))


def after_refusal(d, p, img, sim, user, j, refused, what):
	"""Snapshot j is selected; then a selection is refused: what is read is refused or comes from snapshot j, nothing else."""
	s = sim.snaps[j]
	p.select_shadow(s.guid)
	if d.bool():
		p.seek(d.int(0, s.size // vss.BLK) * vss.BLK)
		p.read(d.int(0, 4 * vss.BLK))
	refused(p)
	bs = c17.interesting(sim, user, s)
	for b in [d.pick(bs) for _ in range(4)]:
		try:
			p.seek(b * vss.BLK)
			got = p.read(vss.BLK)
		except (ValueError, SC.ShadowCopyException):
			continue
		want, und = img.expected_bytes(j, b * vss.BLK, vss.BLK, s.size)
		c17.same(got, want, und, b * vss.BLK, what + ', refused; then block %d of the earlier selection %d' % (b, s.pos))


def t_select(d, r):
	two = d.chance(40)
	sim, user, img = c17.make(d, two, maxops=16, big=d.chance(15))
	p = c17.parser(img)
	eq(sorted((g.stack_position, g.store_guid, g.volume_size) for g in p.shadows()), sorted((s.pos, s.guid, s.size) for s in sim.snaps), 'listing')
	for k in d.perm(len(sim.snaps)):
		s = sim.snaps[k]
		p.select_shadow(s.pos if d.bool() else s.guid)
		eq((p.current_cbi2.get_store_guid(), p.current_cbi3.get_store_guid(), p.current_cbi2.get_flags(), p.current_volume_size), (s.guid, s.guid, s.flags, s.size), 'selected snapshot')
		eq([tuple(x) for x in p.current_location_description_items], s.locations, 'location items')
		eq(p.current_application_information, s.app if s.app is not None else b'', 'application information')
		n = vss.bitmap_len(s.size)
		eq(len(p.current_bitmap), n, 'bitmap length')
		bits = set(b for b in (s.cur | sim.reserved) if b // 8 < n)
		gotbits = set(8 * i + j for i, x in enumerate(p.current_bitmap) if x for j in range(8) if x >> j & 1)
		eq(gotbits, bits, 'bitmap')
		if s.prev is not None:
			pb = p.current_previous_bitmap
			gotbits = set(8 * i + j for i, x in enumerate(pb) if x for j in range(8) if x >> j & 1)
			lim = vss.bitmap_len(s.prev_blocks * vss.BLK)
			eq(gotbits, set(b for b in (s.prev | sim.reserved) if b // 8 < min(n, lim)), 'previous bitmap')
		for b in c17.interesting(sim, user, s)[:6]:
			p.seek(b * vss.BLK)
			want, und = img.expected_bytes(k, b * vss.BLK, vss.BLK, s.size)
			c17.same(p.read(vss.BLK), want, und, b * vss.BLK, 'snapshot %d block %d' % (s.pos, b))
		# A refused selection.
		bad = d.pick((sim.snaps[-1].pos + d.int(1, 5), sim.snaps[0].pos - 1, u128(d)))
		after_refusal(d, p, img, sim, user, k, lambda p: raises(SC.ShadowCopyNotFoundException, p.select_shadow, 'selection of %r' % (bad,), bad), 'selection of %r' % (bad,))
	if len(sim.snaps) > 1:
		r.nontrivial(tuple(sim.log), two)
	r.label('two-volumes', two)
	r.sample('two=%s %s' % (two, '; '.join(sim.log)[:200]))


class Patched(object):
	"""Patches applied over a sparse file."""

	def __init__(self, f, patches, size=None):
		self.f = f
		self.patches = patches
		self.size = f.size if size is None else size

	def seek(self, *a):
		return self.f.seek(*a)

	def tell(self):
		return self.f.tell()

	def read(self, n):
		pos = self.f.tell()
		n = max(0, min(n, self.size - pos))
		data = bytearray(self.f.read(n))
		for o, v in self.patches:
			for i, c in enumerate(v):
				if 0 <= o + i - pos < len(data):
					data[o + i - pos] = c
		return bytes(data)


def t_errors(d, r):
	two = d.chance(25)
	sim, user, img = c17.make(d, two, maxops=16, big=False)
	vo = img.volume_offset
	base = vo if not two else img.storage_offset
	kind = d.uni(0, 15)
	patches = []
	size = None
	what = ''

	def mk(pv=None, ps=None):
		v = Patched(img.volume(), pv or [], size)
		if two:
			return SC.ShadowParserTwoVolumes(v, Patched(img.storage(), ps or []), vo, None, img.storage_offset)
		return SC.ShadowParser(Patched(img.volume(), (pv or []) + (ps or []), size), vo)

	def listing(p):
		return sorted((g.stack_position, g.store_guid, g.volume_size) for g in p.shadows())

	if kind == 0:
		what = 'no file system'
		raises(SC.InvalidVolume, mk, what, [(vo + 3 + d.uni(0, 3), d.pick((b'\x00', b'n', b'X')))])
	elif kind == 1:
		what = 'no start block'
		raises(SC.ShadowCopiesDisabledException, mk, what, [(vo + 7680 + d.uni(0, 15), b'\x01')])
	elif kind == 2:
		o, v = d.pick(((20, b'\x02'), (24, b'\x01'), (32, b'\x01'), (40, b'\x01'), (25, b'\x00'), (33, b'\x00'), (47, b'\x80'), (23, b'\x01')))
		what = 'start block field %d' % o
		raises(SC.ShadowCopiesDisabledException, mk, what, [(vo + 7680 + o, v)])
	elif kind == 3:
		size = vo + d.int(0, 8191)
		what = 'truncated to %d' % size
		raises(SC.ShadowCopiesDisabledException, mk, what)
	elif kind == 4:
		what = 'unaligned first control block'
		raises(SC.ShadowCopyException, mk, what, [(vo + 7728, struct.pack('<Q', img.ctl_first + d.int(1, 0x3FFF)))])
	elif kind == 5:
		n = d.pick(img.ctl) * vss.BLK
		o, v = d.pick(((0, b'\x00'), (15, b'\x00'), (20, b'\x03'), (20, b'\x01'), (24, b'\x01')))
		what = 'damaged control block, byte %d' % o
		raises(SC.ShadowCopyException, mk, what, [(vo + n + o, v)])
	elif kind == 6:
		j = d.uni(0, len(img.ctl) - 1)
		what = 'control block %d of %d at a wrong place' % (j, len(img.ctl))
		p = mk([(vo + img.ctl[j] * vss.BLK + 32, struct.pack('<Q', (img.ctl[j] + 1) * vss.BLK))])
		eq(len(p.control_blocks), j, what)
	elif kind == 7:
		j = d.uni(0, len(img.ctl) - 1)
		t = d.pick(img.ctl)
		last = len(img.ctl) - 1
		what = 'control block loop %d->%d' % (last, t)
		p = mk([(vo + img.ctl[last] * vss.BLK + 40, struct.pack('<Q', t * vss.BLK))])
		eq(listing(p), sorted((s.pos, s.guid, s.size) for s in sim.snaps), what)
	elif kind == 8:
		what = 'unknown item type'
		t = d.int(4, 0xFFFFFFFF)
		p = mk([(vo + img.ctl[0] * vss.BLK + 0x80, struct.pack('<L', t))])
		raises(SC.ControlBlockException, lambda: list(p.shadows()), what)
		raises(SC.ControlBlockException, lambda: p.select_shadow(sim.snaps[0].guid), what)
	elif kind in (9, 10, 11):
		# Half-recorded or duplicated snapshot: turn one item into a free one, or into a copy of another.
		k = d.uni(0, len(sim.snaps) - 1)
		s = sim.snaps[k]
		t2 = d.uni(2, 3)
		tgt = (img.store if t2 == 3 else img.local) if two else img.store
		where = None
		for n in (img.sctl if two and t2 == 3 else img.ctl):
			blk = tgt[n]
			for o in range(0x80, 0x4000, 0x80):
				if blk[o] == 0:
					break
				if blk[o] == t2 and blk[o + 16:o + 32] == s.guid.bytes_le:
					where = (n, o)
		check(where is not None, 'harness: item not found')
		po = (img.storage_offset if two and t2 == 3 else vo) + where[0] * vss.BLK + where[1]
		pv, ps = ([], [(po, struct.pack('<L', 1))]) if two and t2 == 3 else ([(po, struct.pack('<L', 1))], [])
		what = 'item %d of snapshot %d missing' % (t2, s.pos)
		p = mk(pv, ps)
		if t2 == 3:
			eq(listing(p), sorted((x.pos, x.guid, x.size) for x in sim.snaps), what)
		else:
			eq(listing(p), sorted((x.pos, x.guid, x.size) for x in sim.snaps if x is not s), what)
		raises(SC.ShadowCopyException, p.select_shadow, what, s.guid)
		if k + 1 < len(sim.snaps):
			after_refusal(d, p, img, sim, user, d.uni(k + 1, len(sim.snaps) - 1), lambda p: raises(SC.ShadowCopyException, p.select_shadow, what, s.guid), what)
		# Newer snapshots do not depend on it.
		for j in range(k + 1, len(sim.snaps)):
			p = mk(pv, ps)
			p.select_shadow(sim.snaps[j].guid)
			b = d.pick(c17.interesting(sim, user, sim.snaps[j]))
			p.seek(b * vss.BLK)
			want, und = img.expected_bytes(j, b * vss.BLK, vss.BLK, sim.snaps[j].size)
			c17.same(p.read(vss.BLK), want, und, b * vss.BLK, what + ': snapshot %d block %d' % (sim.snaps[j].pos, b))
	elif kind == 14:
		# Two snapshots under one identifier (or one stack position): which of them is meant is not known.
		if len(sim.snaps) < 2:
			raise Discard()
		i, j = d.sample(len(sim.snaps), 2)
		a, b = sim.snaps[i], sim.snaps[j]
		pv, ps = [], []
		for t2 in (2, 3):
			far = two and t2 == 3
			tgt = img.store if far or not two else img.local
			for n in (img.sctl if far else img.ctl):
				for o in range(0x80, 0x4000, 0x80):
					if tgt[n][o] == 0:
						break
					if tgt[n][o] == t2 and tgt[n][o + 16:o + 32] == b.guid.bytes_le:
						(ps if far else pv).append(((img.storage_offset if far else vo) + n * vss.BLK + o + 16, a.guid.bytes_le))
		what = 'snapshots %d and %d under one identifier' % (a.pos, b.pos)
		eq(len(pv) + len(ps), 2, 'harness: items of a snapshot')
		raises(SC.ShadowCopyException, mk(pv, ps).select_shadow, what, a.guid)
	elif kind == 15:
		what = 'reading without a selected snapshot'
		p = mk()
		raises(ValueError, p.read, what, 512)
		raises(ValueError, p.seek, what, 0)
		raises(ValueError, p.tell, what)
		raises(ValueError, p.translate_exact_offset, what, 0)
		raises(ValueError, p.read_at_exact_offset, what, 0)
		s = d.pick(sim.snaps)
		p.select_shadow(s.guid)
		p.seek(d.int(0, s.size))
		at = p.tell()
		raises(ValueError, p.read_at_exact_offset, 'unaligned block', d.int(0, s.size // vss.BLK) * vss.BLK + d.int(1, vss.BLK - 1))
		raises(ValueError, p.seek, 'negative position', -d.int(1, 1 << 40))
		eq(p.tell(), at, 'position after refused operations')
	else:
		# A damaged table, bitmap or description block of one snapshot.
		k = d.uni(0, len(sim.snaps) - 1)
		s = sim.snaps[k]
		cands = [x for x in (s.o_diff, s.o_bm, s.o_loc, s.o_app, s.o_pbm) if x]
		if not cands:
			raise Discard()
		o = d.pick(cands)
		b, v = d.pick(((0, b'\x00'), (15, b'\x00'), (20, b'\x09'), (22, b'\x01')))
		loop = d.chance(40) and o != s.o_app
		if loop:
			what = 'a loop at block %x of snapshot %d' % (o, s.pos)
			patches = [(base + o + 40, struct.pack('<Q', o))]
			p = mk([], patches)
			p.select_shadow(s.guid)  # Ends.
			eq(p.current_volume_size, s.size, what)
		elif d.chance(30):
			what = 'a block of another place at block %x of snapshot %d' % (o, s.pos)
			patches = [(base + o + 32, struct.pack('<Q', o + vss.BLK * d.int(1, 99)))]
			p = mk([], patches)
			p.select_shadow(s.guid)
			eq((len(p.current_diff_area) if o == s.o_diff else 0, len(p.current_bitmap) if o == s.o_bm else 0, list(p.current_location_description_items) if o == s.o_loc else [],
				p.current_application_information if o == s.o_app else b'', len(p.current_previous_bitmap or b'') if o == s.o_pbm else 0), (0, 0, [], b'', 0), what)
		else:
			what = 'damaged block %x of snapshot %d' % (o, s.pos)
			patches = [(base + o + b, v)]
			p = mk([], patches)
			raises(SC.ShadowCopyException, p.select_shadow, what, s.guid)
			if k + 1 < len(sim.snaps):
				after_refusal(d, p, img, sim, user, d.uni(k + 1, len(sim.snaps) - 1), lambda p: raises(SC.ShadowCopyException, p.select_shadow, what, s.guid), what)
		eq(listing(p), sorted((x.pos, x.guid, x.size) for x in sim.snaps), what)
		for j in range(k + 1, len(sim.snaps)):
			p = mk([], patches)
			p.select_shadow(sim.snaps[j].guid)
			bb = d.pick(c17.interesting(sim, user, sim.snaps[j]))
			p.seek(bb * vss.BLK)
			want, und = img.expected_bytes(j, bb * vss.BLK, vss.BLK, sim.snaps[j].size)
			c17.same(p.read(vss.BLK), want, und, bb * vss.BLK, what + ': snapshot %d block %d' % (sim.snaps[j].pos, bb))
	r.nontrivial(kind, what, tuple(sim.log), two)
	r.label('kind-%d' % kind)
	r.sample('%s; %s' % (what, '; '.join(sim.log)[:120]))


def t_blocks(d, r):
	"""Each stored structure on its own: exact fields over their whole range, exact item lists, refusals."""
	u = lambda b, o, n: int.from_bytes(b[o:o + n], 'little')
	guid = lambda b, o: uuid.UUID(bytes_le=bytes(b[o:o + 16]))

	def head(b, typ, o1, o2, o3):
		struct.pack_into('<16sLLQQQ', b, 0, vss.GUID, d.pick((1, 2, d.u(32))), typ, o1, o2, o3)

	k = d.uni(0, 6)
	if k == 0:
		b = bytearray(d.blob(8192))
		b[3:7] = d.pick((b'NTFS', b'ReFS'))
		h = bytearray(48)
		head(h, 1, 7680, 7680, 0)
		b[7680:7728] = h
		first = d.pick((0, d.int(1, 1 << 40) * vss.BLK))
		struct.pack_into('<Q', b, 7728, first)
		if d.bool():
			b[7760:7776] = b[7744:7760]
		raw = bytes(b)
		g = SC.StartBlock(raw)
		eq((g.get_diff_area_guid(), g.get_version(), g.get_type()), (guid(raw, 7680), u(raw, 7696, 4), 1), 'start block header')
		eq((g.get_first_control_block_offset(), g.get_max_diff_area_size(), g.get_volume_guid(), g.get_storage_guid(), g.get_application_flags(), g.get_free_space_precopy_percentage(), g.get_hot_blocks_precopy_percentage(),
			g.get_hot_blocks_days(), g.get_protection_flags()), (first, u(raw, 7736, 8), guid(raw, 7744), guid(raw, 7760), u(raw, 7776, 8), u(raw, 7784, 8), u(raw, 7792, 8), u(raw, 7800, 4), u(raw, 7804, 4)), 'start block')
		eq(bool(g.is_storage_local()), raw[7744:7760] == raw[7760:7776], 'local storage')
		raises(SC.StartBlockException, SC.StartBlock, 'wrong size', raw[:-1] if d.bool() else raw + b'x')
	elif k == 1:
		b = bytearray(d.blob(0x80))
		t = d.uni(2, 3)
		struct.pack_into('<L', b, 0, t)
		if not u(b, 8, 8):
			b[8] = 1
		raw = bytes(b)
		cls = (SC.ControlBlockItem2, SC.ControlBlockItem3)
		g = cls[t - 2](raw)
		raises(SC.ControlBlockItemException, cls[3 - t], 'item of type %d' % t, raw)
		raises(SC.ControlBlockItemException, cls[t - 2], 'wrong size', raw[:-1] if d.bool() else raw + b'x')
		eq((g.get_item_type(), g.get_store_guid(), bytes(g.get_store_guid_raw())), (t, guid(raw, 16), raw[16:32]), 'item')
		if t == 2:
			ft = u(raw, 48, 8)
			eq((g.get_snapshot_priority(), g.get_volume_size(), g.get_stack_position(), g.get_flags()), (raw[4], u(raw, 8, 8), u(raw, 32, 8), u(raw, 40, 8)), 'item 2')
			ft = ntfs.gen_ft(d)
			b[48:56] = struct.pack('<Q', ft)
			check(ntfs.time_ok(SC.ControlBlockItem2(bytes(b)).get_timestamp(), ft), 'commit time of %d', ft)
			b[8:16] = bytes(8)
			raises(SC.ControlBlockItemException, SC.ControlBlockItem2, 'no volume size', bytes(b))
		else:
			eq((g.get_diff_area_block_offset(), g.get_application_information_block_offset(), g.get_location_description_block_offset(), g.get_bitmap_offset(), g.get_file_reference(), g.get_allocation_size(), g.get_previous_bitmap_offset()),
				tuple(u(raw, o, 8) for o in (8, 32, 40, 48, 56, 64, 72)), 'item 3')
	else:
		b = bytearray(vss.BLK)
		typ = {2: 2, 3: 3, 4: 4, 5: 5, 6: 6}[k]
		cls = {2: SC.ControlBlock, 3: SC.DiffAreaTable, 4: SC.ApplicationInformation, 5: SC.LocationDescription, 6: SC.Bitmap}[k]
		o = [d.pick((0, d.int(0, (1 << 50) - 1) * vss.BLK)) for _ in range(3)]
		head(b, typ, *o)
		want, bad = None, False
		at = 0x80
		full = d.bool()
		if k == 2:
			want = []
			for i in range(127 if full else d.int(0, 126)):
				t = d.pick((1, 2, 3))
				it = bytearray(d.blob(0x80))
				struct.pack_into('<L', it, 0, t)
				it[8] |= 1
				b[at:at + 0x80] = it
				if t != 1:
					want.append((t, bytes(it)))
				at += 0x80
			if at < vss.BLK and d.bool():
				b[at + 4:] = d.blob(vss.BLK - at - 4)  # Nothing after the end is read.
			got = lambda g: [({SC.ControlBlockItem2: 2, SC.ControlBlockItem3: 3}[type(x)], bytes(x.item_raw)) for x in g.items()]
		elif k == 3:
			want = []
			for i in range(508 if full else d.int(0, 507)):
				f = d.pick((0, 0, 1, 2, 4, 5, 6, 8, 0x80, 0xF8, 0xFA))
				e = [d.int(0, 1 << 40) * vss.BLK, d.u(64), d.int(0 if f else 1, 1 << 40) * vss.BLK, f, d.u(32)]
				if d.chance(1) and d.chance(30):
					bad = True
					j = d.uni(0, 4)
					if j == 0:
						e[0] += d.int(1, vss.BLK - 1)
					elif j == 1:
						e[2] += d.int(1, vss.BLK - 1)
					elif j == 2:
						e[3] |= 1 << d.uni(8, 31)
					else:
						e[3] |= 3
				struct.pack_into('<QQQLL', b, at, *e)
				if not e[3] & 4:
					want.append(tuple(e))
				at += 32
			if at + 32 < vss.BLK and d.bool():
				b[at + 32:] = d.blob(vss.BLK - at - 32)
			got = lambda g: [tuple(x) for x in g.get_diff_area()]
		elif k == 4:
			b[0x80:] = want = d.blob(vss.BLK - 0x80)
			got = lambda g: bytes(g.get_application_information())
		elif k == 5:
			want = []
			for i in range(677 if full else d.int(0, 676)):
				e = (1 + d.int(0, (1 << 64) - 2), d.u(64), 1 + d.int(0, (1 << 64) - 2))
				if d.chance(1) and d.chance(20):
					bad = True
					e = (e[0], e[1], 0)
				struct.pack_into('<QQQ', b, at, *e)
				want.append(e)
				at += 24
			got = lambda g: [tuple(x) for x in g.get_location_description_items()]
		else:
			b[0x80:] = want = d.blob(vss.BLK - 0x80)
			got = lambda g: bytes(g.get_bitmap())
		raw = bytes(b)
		g = cls(raw)
		eq((g.get_type(), g.get_version(), g.get_volume_offset(), g.get_diff_area_guid()), (typ, u(raw, 16, 4), o[1], guid(raw, 0)), 'block header')
		if k == 2:
			eq((g.get_relative_offset(), g.get_next_control_block_volume_offset()), (o[0], o[2]), 'control block header')
		elif k != 4:
			eq(g.get_next_volume_offset(), o[2], 'next block')
		if bad:
			raises(SC.ShadowBlockException, got, 'bad entry', g)
		else:
			eq(got(g), want, 'contents of a block of type %d' % typ)
		raises(SC.ShadowCopyException, cls, 'wrong size', raw[:-d.int(1, vss.BLK)] if d.bool() else raw + b'x')
		x = bytearray(raw)
		struct.pack_into('<L', x, 20, d.pick([t for t in range(0, 8) if t != typ]))
		raises(SC.ShadowCopyException, cls, 'wrong type', bytes(x))
		x = bytearray(raw)
		x[d.uni(0, 15)] ^= 1 << d.uni(0, 7)
		raises(SC.ShadowCopyException, cls, 'wrong signature', bytes(x))
		if k == 2:
			x = bytearray(raw)
			struct.pack_into('<Q', x, 24, o[0] + d.int(1, vss.BLK - 1))
			raises(SC.ShadowCopyException, cls, 'unaligned relative offset', bytes(x))
	r.label('kind %d' % k)
	r.nontrivial(k, raw)
	r.sample('kind %d' % k)


TESTS = [
	Test('blocks', t_blocks, 7500, shards=2, qsec=20),
	Test('listing', t_listing, 30000, shards=2, qsec=30),
	Test('select', t_select, 15000, shards=3, qsec=30),
	Test('errors', t_errors, 30000, shards=3, qsec=30),
]
