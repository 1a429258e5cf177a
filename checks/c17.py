"""C17: shadow copy contents."""
from checks import Test
from vlib.engine import *
from vlib import vss
from dfir_ntfs import ShadowCopy

TECHNIQUE = 'model-based property testing: a simulated copy-on-write driver runs generated histories; every snapshot is read back and compared with the recorded volume state'
RULE = ('A case is a history of writes, block moves, snapshots, snapshot edits (overlays), volume growth and snapshot deletions on a simulated volume, with generated placement of the metadata; '
	'every snapshot left is then read by generated seek/tell/read sequences and compared with the content recorded at snapshot time. Non-trivial: at least one snapshot '
	'with a kept block is read. Distinct by history.')


def gen_two(d):
	return d.chance(25)


def make(d, two, **kw):
	sim, user = vss.gen_history(d, two, **kw)
	if not sim.snaps:
		raise Discard()
	off = d.pick((0, 0, 512, 1 << 20, 123 * 512))
	soff = d.pick((0, 0, 512, 1 << 16)) if two else 0
	trailing = d.pick((0, 0, 512 * d.int(1, 64), 100))
	img = vss.gen_image(d, sim, user, volume_offset=off, storage_offset=soff, trailing=trailing, fs=d.pick((b'NTFS', b'NTFS', b'ReFS')))
	img.finish(ncontrol=d.int(1, 3), shuffle=d.bool(), free_items=d.int(0, 3))
	return sim, user, img


def parser(img, vs=None):
	if img.sim.two:
		return ShadowCopy.ShadowParserTwoVolumes(img.volume(), img.storage(), img.volume_offset, vs, img.storage_offset)
	return ShadowCopy.ShadowParser(img.volume(), img.volume_offset, vs)


def same(got, want, und, pos, what):
	eq(len(got), len(want), 'length of ' + what)
	if got == want:
		return
	if und:
		got, want = bytearray(got), bytearray(want)
		for a, b in und:
			for i in range(max(0, a - pos), min(len(got), b - pos)):
				got[i] = want[i] = 0
		if got == want:
			return
	for i in range(len(got)):
		if got[i] != want[i]:
			raise Violation('%s: byte %d (block %d, sector %d) differs: got %r, expected %r' % (what, pos + i, (pos + i) // 0x4000, (pos + i) % 0x4000 // 512, bytes(got[i:i + 16]), bytes(want[i:i + 16])))


def interesting(sim, user, s):
	out = set(b for b in user if b < s.blocks)
	for t in sim.snaps:
		for e in t.entries:
			out.add(e[1])
			if e[0] == 'fwd':
				out.add(e[2])
	return sorted(b for b in out if b < s.blocks)


def t_history(d, r):
	two = gen_two(d)
	sim, user, img = make(d, two)
	vs = d.pick((None, None, sim.size, sim.size + 512 * d.int(1, 100)))
	kept = 0
	order = d.perm(len(sim.snaps))
	p = parser(img, vs)
	for k in order:
		s = sim.snaps[k]
		if d.chance(30):
			p = parser(img, vs)
		p.select_shadow(s.guid if d.bool() else s.pos)
		eq(p.current_volume_size, s.size, 'size of snapshot %d' % s.pos)
		eq(p.tell(), 0, 'position after selection')
		for b in interesting(sim, user, s):
			pos = b * vss.BLK
			p.seek(pos)
			got = p.read(vss.BLK)
			want, und = img.expected_bytes(k, pos, vss.BLK, s.size)
			same(got, want, und, pos, 'snapshot %d block %d' % (s.pos, b))
			eq(p.tell(), pos + len(want), 'position after reading block %d' % b)
			if not two and d.chance(20):
				p.seek(pos)
				got = p.read(vss.BLK, True)
				want, und = img.expected_bytes(k, pos, vss.BLK, s.size, True)
				same(got, want, und, pos, 'snapshot %d block %d with fill' % (s.pos, b))
		if s.has:
			kept += 1
	# The same block of one snapshot after the other.
	for _ in range(d.uni(0, 3)):
		b = d.pick(sorted(user) or [0])
		for k in [d.uni(0, len(sim.snaps) - 1) for _ in range(d.uni(2, 4))]:
			s = sim.snaps[k]
			if b >= s.blocks:
				continue
			p.select_shadow(s.guid)
			p.seek(b * vss.BLK)
			got = p.read(vss.BLK)
			want, und = img.expected_bytes(k, b * vss.BLK, vss.BLK, s.size)
			same(got, want, und, b * vss.BLK, 'snapshot %d block %d after another snapshot' % (s.pos, b))
	if kept:
		r.nontrivial(tuple(sim.log), two)
	r.label('two-volumes', two)
	r.label('forwarders', any(e[0] == 'fwd' for s in sim.snaps for e in s.entries))
	r.label('forwarded to itself', img.selfs)
	r.label('overlays', any(e[0] == 'ovl' for s in sim.snaps for e in s.entries))
	r.label('several-snapshots', len(sim.snaps) > 1)
	r.label('large-volume', sim.blocks > 100000)
	r.sample('blocks=%d two=%s: %s' % (sim.blocks, two, '; '.join(sim.log)[:300]))


def t_reads(d, r):
	two = gen_two(d)
	sim, user, img = make(d, two, maxops=14, big=d.chance(10), maxsnaps=3)
	k = d.uni(0, len(sim.snaps) - 1)
	s = sim.snaps[k]
	vs = d.pick((None, None, sim.size, sim.size + 512))
	size = s.size
	if d.chance(25):
		# The volume has been made smaller.
		far = max([e[2] for t in sim.snaps for e in t.entries if e[0] == 'fwd'] + [0])
		vs = d.int((far + 1) * vss.BLK // 512, sim.size // 512) * 512
		size = min(size, vs)
	p = parser(img, vs)
	raises(ValueError, p.read, 'read before selection', 1)
	raises(ValueError, p.seek, 'seek before selection', 1)
	raises(ValueError, p.tell, 'tell before selection')
	p.select_shadow(s.guid)
	hotspots = [b * vss.BLK for b in interesting(sim, user, s)] + [size, 0]
	pos = 0
	crossed = 0
	log = []
	for i in range(d.int(1, 14)):
		op = d.uni(0, 9)
		near = max(0, d.pick(hotspots) + d.pick((0, -1, 1, 511, -512, 512, 513, 0x4000, d.int(-0x4000, 0x8000))))
		if op <= 4:
			wh = d.uni(0, 2)
			o = near if wh == 0 else near - pos if wh == 1 else near - size
			log.append(('seek', o, wh))
			eq(p.seek(o, wh), near, 'seek #%d' % i)
			pos = near
		elif op == 5:
			bad = d.pick(((-1, 0), (-pos - 1, 1), (-size - 1, 2), (0, 3)))
			raises(ValueError, p.seek, 'seek %r' % (bad,), *bad)
			log.append(('bad', bad))
		elif op == 6 and size - pos < 0x40000:
			n = d.pick((None, -1, 0))
			log.append(('readall', n))
			got = p.read(n)
			want, und = img.expected_bytes(k, pos, (size if n != 0 else 0), size)
			same(got, want, und, pos, 'read(%r) at %d of %d (op %d)' % (n, pos, size, i))
			pos += len(want)
		else:
			n = d.pick((1, 512, 0x4000, 0x4001, 0x8000, 0xC000)) if d.bool() else d.int(0, 0x10000)
			fill = not two and d.chance(20)
			log.append(('read', n, fill))
			got = p.read(n, True) if fill else p.read(n)
			want, und = img.expected_bytes(k, pos, n, size, fill)
			same(got, want, und, pos, 'read(%d) at %d of %d (op %d)' % (n, pos, size, i))
			if n and pos // 0x4000 != (pos + max(0, len(want) - 1)) // 0x4000:
				crossed += 1
			pos += len(want)
		eq(p.tell(), pos, 'position after op %d' % i)
	if two:
		raises(NotImplementedError, p.read, 'fill with two volumes', 10, True)
	if crossed:
		r.nontrivial(tuple(sim.log), tuple(map(str, log)))
	r.label('unaligned-size', size % 0x4000 != 0)
	r.label('two-volumes', two)
	r.label('past-end', any(x[0] == 'read' for x in log) and pos >= size)
	r.sample('size=%d %s | %s' % (size, '; '.join(sim.log)[:120], log[:6]))


def t_large(d, r):
	"""One read of tens of megabytes gives the same as the blocks read one by one."""
	two = gen_two(d)
	sim, user, img = make(d, two, span=d.int(1100, 1600))
	k = d.uni(0, len(sim.snaps) - 1)
	s = sim.snaps[k]
	p = parser(img)
	p.select_shadow(s.guid)
	pos = d.pick((0, d.int(0, 1 << 20)))
	n = d.pick((None, -1, s.size, d.int(17 << 20, s.size)))
	p.seek(pos)
	got = p.read(n)
	want, und = img.expected_bytes(k, pos, s.size if n is None or n < 0 else n, s.size)
	same(got, want, und, pos, 'read(%r) at %d of %d' % (n, pos, s.size))
	eq(p.tell(), pos + len(want), 'position')
	if s.has and len(want) > 1 << 24:
		r.nontrivial(tuple(sim.log), pos, n)
	r.label('over 16 MB', len(want) > 1 << 24)
	r.sample('read(%r) at %d of %d: %d bytes; %s' % (n, pos, s.size, len(want), '; '.join(sim.log)[:120]))


TESTS = [
	Test('history', t_history, 12000, shards=5, qsec=35),
	Test('reads', t_reads, 12000, shards=3, qsec=35),
	Test('large', t_large, 12, thorough=600, shards=3, qsec=12),
]
