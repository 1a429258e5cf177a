"""C26: damage stays local."""
import binascii
import struct
from checks import Test
from vlib.engine import *
from vlib import exfat, fatdir, fattree, ntfs, usn, vss
from vlib import sources as S
from dfir_ntfs import Attributes, BootSector, LogFile, MFT, MoveTable, PartitionTable, ShadowCopy, USN, WSL
from dfir_ntfs.addons import FAT, exFAT

TECHNIQUE = 'structure-aware mutation fuzzing of all parsers with an error oracle, a work limit and a locality (differential) oracle'
RULE = ('Damage tests: a valid input of each kind (file table, NTFS volume, journal, log file, shadow copy volume, FAT, exFAT, partition tables, move log, memory image) gets 1-12 generated changes (bits, fields, fills, noise, '
	'copied and swapped structures, a cut), everything the parser offers is then read; every error must be a documented one, and reads and bytes are limited. Bytes test: every structure class gets noise and damaged or cut structures. '
	'Locality tests: damage within one record, directory, snapshot store, journal record, log entry or memory block, compared with the undamaged dump. Non-trivial: the damaged input is accepted and gives items (damage, bytes), '
	'or other items remain to be compared (locality). Distinct by result or input.')

DOCUMENTED = (MFT.MasterFileTableException, BootSector.BootSectorException, LogFile.LogFileException, ShadowCopy.ShadowCopyException, ShadowCopy.InvalidVolume, FAT.FileSystemException, exFAT.FileSystemException,
	ValueError, NotImplementedError, S.Impossible)


class Judge(object):
	"""Which errors are documented ones."""

	def __init__(self):
		self.errors = {}

	def __call__(self, e, owner):
		self.errors[type(e).__name__] = self.errors.get(type(e).__name__, 0) + 1
		if isinstance(e, DOCUMENTED):
			return
		if isinstance(e, struct.error) and owner is not None and type(owner).__module__.startswith('dfir_ntfs.Attributes'):
			return
		raise Undocumented(type(owner).__name__ if owner is not None else 'parser', e) from e


class Undocumented(Violation):
	def __init__(self, who, e):
		import traceback
		tb = traceback.extract_tb(e.__traceback__)
		where = ' <- '.join('%s:%s %s' % (f.filename.split('/')[-1], f.lineno, f.name) for f in reversed(tb[-4:]))
		Violation.__init__(self, 'undocumented error from %s: %s: %s (%s)' % (who, type(e).__name__, str(e)[:200], where))


def dump(s, guards, judge, cap=20000):
	"""All items, or the documented error of the constructor."""
	old = S.JUDGE[0]
	S.JUDGE[0] = judge
	try:
		try:
			p = s.open(*guards)
		except (S.Limit, MemoryError, RecursionError, Violation):
			raise
		except Exception as e:
			judge(e, None)
			return None
		out = []
		for x in s.items(p):
			out.append(x)
			if len(out) >= cap:
				break
		return out
	except S.Limit as e:
		raise Violation('%s: too much work: %s' % (s.kind, e))
	finally:
		S.JUDGE[0] = old


VALUES = (0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 23, 24, 31, 32, 48, 56, 64, 127, 128, 255, 256, 511, 512, 513, 1023, 1024, 4095, 4096, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF)


def near(d, regions, size):
	"""A position in the input, mostly in its structures."""
	if regions and d.chance(90):
		o, n = d.pick(regions)
		k = d.uni(0, 3)
		if k == 0:
			return min(size - 1, o + d.uni(0, min(n, 64) - 1))
		if k == 1:
			return min(size - 1, o + d.uni(0, min(n, 512) - 1))
		return min(size - 1, o + d.uni(0, n - 1))
	return d.uni(0, size - 1)


def read(base, patches, off, n):
	g = S.Guard(base, patches)
	g.seek(off)
	return g.read(n)


def mutate(d, base, regions):
	"""(patches, size, description)."""
	patches, size, log = [], base.size, []
	if not base.size:
		return patches, size, log
	for _ in range(d.pickw(((4, 1), (2, 2), (2, 4), (1, 12)))):
		k = d.uni(0, 9)
		o = near(d, regions, base.size)
		if k == 0:
			b = read(base, patches, o, 1)
			p = bytes([b[0] ^ (1 << d.uni(0, 7))])
			log.append('bit %x' % o)
		elif k in (1, 2):
			w = d.pick((1, 2, 4, 8))
			o -= o % d.pick((1, w))
			v = d.pick(VALUES) if d.chance(60) else d.pick((base.size, base.size - 1, base.size // 512, d.uni(0, base.size), (1 << (8 * w - 1)) - 1, 1 << (8 * w - 1), (1 << 8 * w) - 1, (1 << 8 * w) - 2, d.u(8 * w)))
			p = (v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
			log.append('%d bytes at %x: %x' % (w, o, v))
		elif k == 3:
			w = d.pick((1, 2, 4))
			b = int.from_bytes(read(base, patches, o, w), 'little')
			p = ((b + d.pick((1, -1, 8, -8, 16, 512, -512))) & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
			log.append('add at %x' % o)
		elif k == 4:
			n = d.pick((8, 32, 512, 4096, d.uni(1, 2000)))
			p = d.pick((b'\x00', b'\xFF', b'\xE5', b'\x80'))[:1] * n
			log.append('fill %d at %x' % (n, o))
		elif k == 5:
			n = d.pick((4, 16, 64, d.uni(1, 600)))
			p = d.blob(n)
			log.append('noise %d at %x' % (n, o))
		elif k in (6, 7):
			n = d.pick((2, 8, 32, 64, 512, 1024, 4096, d.uni(1, 600)))
			a = d.pick((1, 8, 32, 512, n))
			o -= o % a
			q = near(d, regions, base.size)
			q -= q % a
			p = read(base, patches, q, n)
			log.append('copy %d from %x to %x' % (n, q, o))
		elif k == 8:
			n = d.pick((32, 512, 1024, 4096))
			o -= o % n
			q = near(d, regions, base.size)
			q -= q % n
			x, p = read(base, patches, o, n), read(base, patches, q, n)
			patches.append((q, x[:max(0, base.size - q)]))
			log.append('swap %d at %x and %x' % (n, q, o))
		else:
			if d.chance(60):
				size = min(size, d.pick((o, o - o % 512, d.uni(0, base.size), base.size - 1)))
				log.append('cut at %x' % size)
			continue
		patches.append((o, p))
	return patches, size, log


def limits(base):
	return (400000, 1 << 30)


def t_damage(kind):
	def fn(d, r):
		s = S.KINDS[kind](d, True)
		guards, logs, changed = [], [], False
		which = d.uni(0, len(s.files) - 1)
		for i, b in enumerate(s.files):
			patches, size = [], b.size
			if i == which:
				hot = s.hot if len(s.files) == 1 else s.hots[i]
				patches, size, log = mutate(d, b, hot)
				fix = getattr(s, 'fix', None)
				if fix is not None and d.chance(70):
					patches += fix(S.Guard(b, patches, size))
				logs += log
			guards.append(S.Guard(b, patches, size, limits(b)))
		judge = Judge()
		out = dump(s, guards, judge)
		for k in judge.errors:
			r.label(k)
		r.label('refused', out is None)
		if out is not None:
			r.nontrivial(kind, hash(tuple(out)))
		r.label('over 20000 reads', max(g.reads for g in guards) > 20000)
		r.label('over 100000 reads', max(g.reads for g in guards) > 100000)
		r.label('over 100 MB', max(g.total for g in guards) > 10 ** 8)
		r.sample('%s: %s -> %s' % (kind, '; '.join(logs), 'refused' if out is None else '%d items, errors %s' % (len(out), judge.errors)))
	fn.__name__ = 't_' + kind
	return fn




# --- damage within one item --------------------------------------------------------

def spoil(d, b):
	"""Other contents for these bytes."""
	n = len(b)
	out = bytearray(b)
	for _ in range(d.int(1, 4)):
		k = d.uni(0, 4)
		o = d.uni(0, n - 1) if d.bool() else d.uni(0, min(n, 64) - 1)
		if k == 0:
			out[o] ^= 1 << d.uni(0, 7)
		elif k == 1:
			w = d.pick((1, 2, 4, 8))
			out[o:o + w] = (d.pick(VALUES) if d.bool() else d.u(8 * w)).to_bytes(8, 'little')[:w][:n - o]
		elif k == 2:
			w = min(n - o, d.pick((8, 32, 512)))
			out[o:o + w] = d.pick((b'\x00', b'\xFF', b'\xE5', b'\x80')) * w
		elif k == 3:
			w = min(n - o, d.pick((4, 16, 64)))
			out[o:o + w] = d.blob(w)
		else:
			out[:] = d.pick((bytes(n), b'\xFF' * n, d.blob(n)))
	return bytes(out)


def subsequence(want, got, what, extra):
	"""All wanted groups are there in order; at most this many others."""
	i = 0
	for g in got:
		if i < len(want) and g == want[i]:
			i += 1
	check(i == len(want), '%s: group %d of %d is missing or differs: %s', what, i, len(want), str(want[i])[:300] if i < len(want) else '')
	check(len(got) - len(want) <= extra, '%s: %d groups instead of %d', what, len(got), len(want))


def groups(items):
	"""Items of a table by record, and the paths."""
	out, paths, head = [], {}, []
	for x in items:
		if x[0] == 'record':
			out.append([x])
		elif x[0] == 'paths':
			paths.setdefault(x[1], []).append(x[2])
		elif x[0] in ('lookup', 'number', 'statistics'):
			head.append(x)
		elif out:
			out[-1].append(x)
		else:
			head.append(x)
	return out, paths, head


def t_local_mft(d, r):
	s = S.gen_mft(d, True)
	size = s.sim.size
	data = s.files[0].data
	n = d.uni(1, len(data) // size - 1)
	if n == 3:
		raise Discard()
	old = data[n * size:(n + 1) * size]
	new = spoil(d, old)
	mask = (1 << 48) - 1
	excluded = {n} | set(struct.unpack_from('<Q', x, 32)[0] & mask for x in (old, new) if struct.unpack_from('<Q', x, 32)[0])
	before = dump(s, [S.Guard(s.files[0])], Judge())
	p = MFT.MasterFileTableParser(S.Guard(s.files[0]))
	parents = {}
	for fr in p.file_records():
		try:
			parents[fr.get_master_file_table_number()] = set(a.value_decoded().get_parent_directory() & mask for a in fr.attributes() if type(a) is MFT.AttributeRecordResident and a.type_code == 0x30)
		except (MFT.MasterFileTableException, ValueError, struct.error):
			pass
	judge = Judge()
	after = dump(s, [S.Guard(s.files[0], [(n * size, new)])], judge)
	check(after is not None, 'a file table with a damaged record %d was refused', n)
	g0, p0, _ = groups(before)
	g1, p1, _ = groups(after)
	keep = lambda gs: [g for g in gs if g[0][1] not in excluded]
	want = keep(g0)
	subsequence(want, keep(g1), 'file table with damage in record %d' % n, 1)
	same = 0
	for g in want:
		k = g[0][1]
		seen, todo = set(), [k]
		while todo:
			x = todo.pop()
			if x not in seen:
				seen.add(x)
				todo += parents.get(x, {x}) if x in parents else []
		if not seen & excluded:
			same += 1
			check(p0[k][0] in p1.get(k, []), 'paths of record %d after damage in record %d: %s instead of %s', k, n, p1.get(k), p0[k])
	r.label('paths compared', same > 0)
	if want and new != old:
		r.nontrivial(new, n)
	r.sample('record %d of %d damaged, %d others compared, %d with paths' % (n, len(data) // size, len(want), same))


def entry_path(x):
	for k in ('short_name', 'name', 'long_name_partial', 'name_partial'):
		if hasattr(x, k):
			return getattr(x, k)
	return None


def local_walk(d, r, what, img, size, make, offset_of, cs):
	import itertools
	base = S.Other(img)
	cap = 3000

	def walk(g):
		out = []
		try:
			for x in itertools.islice(make(g), cap):
				out.append(x)
		except (FAT.FileSystemException, exFAT.FileSystemException, ValueError) as e:
			return out, True
		if len(out) >= cap:
			raise Discard()
		return out, False
	items, failed = walk(S.Guard(base))
	if failed:
		raise Discard()
	firsts = {}
	for x in items:
		if getattr(x, 'is_directory', False) and entry_path(x).split('/')[-1] not in ('.', '..'):
			firsts[x.first_cluster] = firsts.get(x.first_cluster, 0) + 1
	dirs = [x for x in items if getattr(x, 'is_directory', False) and not x.is_deleted and x.first_cluster > 1 and firsts.get(x.first_cluster) == 1 and entry_path(x).split('/')[-1] not in ('.', '..') and not entry_path(x).startswith('<')]
	if not dirs:
		raise Discard()
	x = d.pick(dirs)
	path = getattr(x, 'long_name', None) or entry_path(x)
	o = offset_of(x.first_cluster)
	old = read(base, [], o, cs)
	if len(old) < cs:
		raise Discard()
	new = spoil(d, old)
	other, failed = walk(S.Guard(base, [(o, new)], None, limits(base)))
	check(not failed, '%s: damage in directory %r ended the walk', what, path)

	def rest(its):
		out = []
		for y in its:
			p = entry_path(y)
			if p is not None and (p.startswith(path + '/') or p.startswith('<Orphan')):
				continue
			out.append(y)
		return out
	a, b = rest(items), rest(other)
	for i, (u, v) in enumerate(zip(a, b)):
		check(u == v, '%s: after damage in directory %r item %d is %s instead of %s', what, path, i, v, u)
	eq(len(b), len(a), '%s: number of items outside of the damaged directory %r' % (what, path))
	r.label('deleted elsewhere', any(getattr(y, 'is_deleted', False) for y in a))
	if len(a) > 1 and new != old:
		r.nontrivial(new, path)
	r.sample('%s: directory %r damaged, %d items outside compared' % (what, path, len(a)))


def t_local_fat(d, r):
	t = fattree.Tree(d, d.pick((12, 16, 32)), damage=False)
	local_walk(d, r, 'FAT%d' % t.g.typ, t.v.image(), None, lambda g: FAT.FileSystemParser(g, t.v.offset).walk('cp437', False), lambda c: t.v.offset + t.g.cluster_offset(c), t.g.cs)


def t_local_exfat(d, r):
	t = exfat.Tree(d, damage=False)
	local_walk(d, r, 'exFAT', t.image(), None, lambda g: exFAT.FileSystemParser(g, t.offset).walk(False), lambda c: t.offset + t.g.cluster_offset(c), t.g.cs)


def t_local_vss(d, r):
	from checks.c17 import make, interesting, same
	two = d.chance(25)
	sim, user, img = make(d, two, maxops=14, big=d.chance(10))
	if len(sim.snaps) < 2:
		raise Discard()
	k = d.uni(0, len(sim.snaps) - 1)
	s = sim.snaps[k]
	blocks = list(img.bmnums[k]) + list(img.pbmnums[k])
	for nums in [x for t in (3, 4, 5) for x in img.meta.get(t, [])]:
		if nums[0] * vss.BLK in (s.o_diff, s.o_loc, s.o_app):
			blocks += nums
	blocks = [b for b in blocks if isinstance(img.store.get(b), bytes)]
	if not blocks:
		raise Discard()
	hit = [d.pick(blocks) for _ in range(d.pick((1, 1, 2)))]
	for b in hit:
		img.store[b] = spoil(d, img.store[b][:0x200]) + img.store[b][0x200:] if d.bool() else spoil(d, img.store[b])
	guards = [S.Guard(S.Other(img.volume()), (), None, limits(None))] + ([S.Guard(S.Other(img.storage()), (), None, limits(None))] if two else [])
	try:
		p = ShadowCopy.ShadowParserTwoVolumes(guards[0], guards[1], img.volume_offset, None, img.storage_offset) if two else ShadowCopy.ShadowParser(guards[0], img.volume_offset)
		eq([x.store_guid if hasattr(x, 'store_guid') else x for x in p.shadows()].__len__(), len(sim.snaps), 'number of listed snapshots with a damaged store')
		judge = Judge()
		compared = 0
		for j in d.perm(len(sim.snaps)):
			q = sim.snaps[j]
			old = j > k
			try:
				p.select_shadow(q.guid)
			except Exception as e:
				judge(e, None)
				check(not old, 'snapshot %d cannot be selected after damage in the store of snapshot %d: %s', q.pos, s.pos, e)
				continue
			for b in interesting(sim, user, q)[:16]:
				try:
					p.seek(b * vss.BLK)
					got = p.read(vss.BLK)
				except Exception as e:
					judge(e, None)
					check(not old, 'snapshot %d, block %d is not readable after damage in the store of snapshot %d: %s', q.pos, b, s.pos, e)
					continue
				if old:
					want, und = img.expected_bytes(j, b * vss.BLK, vss.BLK, q.size)
					same(got, want, und, b * vss.BLK, 'snapshot %d block %d with damage in the store of %d' % (q.pos, b, s.pos))
					compared += 1
	except S.Limit as e:
		raise Violation('shadow copies: too much work: %s' % e)
	r.label('newer compared', compared > 0)
	for x in judge.errors:
		r.label(x)
	if compared:
		r.nontrivial(*sim.log, tuple(hit), k)
	r.sample('%s; store of %d damaged in %s, %d blocks of newer snapshots compared' % ('; '.join(sim.log)[:150], s.pos, hit, compared))


def t_local_usn(d, r):
	recs = [usn.Rec(d) for _ in range(d.int(2, 8))]
	out, at = b'', []
	for w in recs:
		if d.chance(20):
			out += bytes(8 * d.int(1, 600))
		at.append(len(out))
		out += w.bytes()
	k = d.uni(0, len(recs) - 1)
	n = len(recs[k].bytes())
	how = d.uni(0, 2)
	new = (bytes(n), b'\xFF' * n, b'\xFE' * n)[how]
	dump1 = lambda b: [S.canon(x) for x in USN.ChangeJournalParser(S.Guard(S.Bytes(b), (), None, limits(None))).usn_records()]
	a = dump1(out)
	eq(len(a), len(recs), 'records before the damage')
	b = dump1(out[:at[k]] + new + out[at[k] + n:])
	eq(b, a[:k] + a[k + 1:], 'journal records after damage in record %d of %d' % (k, len(recs)))
	r.nontrivial(out, k, how)
	r.sample('record %d of %d damaged (%d)' % (k, len(recs), how))


def t_local_move(d, r):
	s = S.gen_move(d)
	ss = s.hot[0][1]
	data = s.files[0].data
	per = (ss - 16) // 124
	sec = d.uni(1, len(data) // ss - 1)
	k = d.uni(0, per - 1)
	o = sec * ss + k * 124
	lo = o + 12  # The type of the entry stays (unsupported types are refused).
	if o < 1024 + 256 and ss == 512 or o < 4096 + 256:
		lo = max(lo, o + 60)
	new = data[:lo] + spoil(d, data[lo:o + 124]) + data[o + 124:]
	if data[512:1024] != new[512:1024] and ss == 4096:
		raise Discard()

	def run(b):
		p = MoveTable.MoveTableParser(S.Guard(S.Bytes(b), (), None, limits(None)))
		return [S.canon(x) for x in p.log_entries()]
	a = run(data)
	try:
		b = run(new)
	except (ValueError, NotImplementedError, MoveTable.MoveTableException if hasattr(MoveTable, 'MoveTableException') else ValueError) as e:
		check(False, 'move log refused after damage in entry %d of sector %d: %s', k, sec, e)
	eq(len(b), len(a), 'entries of a move log with a damaged one')
	diff = [i for i in range(len(a)) if a[i] != b[i]]
	check(len(diff) <= 1, 'damage in one entry changed entries %s', diff)
	if len(a) > 1 and new != data:
		r.nontrivial(new)
	r.sample('entry %d of sector %d damaged, %d entries' % (k, sec, len(a)))


def t_local_mem(d, r):
	from checks import c31
	p, a = c31.layout(d)
	blocks = [c31.fcb(d, p, a)[0] for _ in range(d.int(34, 60))]
	img, placed = c31.plant(d, blocks, False)
	k = d.uni(0, len(placed) - 1)
	o = placed[k][0]
	n = len(blocks[0])
	how = d.uni(0, 2)
	new = (b'\x00' * n, b'\xFF' * n, b'\x55' + img[o + 1:o + n])[how]
	run = lambda b: [S.canon(x) for x in MFT.MetadataCarver(S.Guard(S.Bytes(b), (), None, limits(None))).carve_fcb_timestamps()]
	x = run(img)
	eq(len(x), len(blocks), 'blocks before the damage')
	y = run(img[:o] + new + img[o + n:])
	eq(y, x[:k] + x[k + 1:], 'blocks after damage in block %d' % k)
	r.nontrivial(img, k)
	r.sample('block %d of %d damaged (%d)' % (k, len(blocks), how))


# --- structures given as bytes -----------------------------------------------------

VALUE_CLASSES = (Attributes.StandardInformation, Attributes.FileName, Attributes.ObjectID, Attributes.AttributeList, Attributes.VolumeName, Attributes.VolumeInformation, Attributes.IndexRoot, Attributes.ReparsePoint,
	Attributes.EAInformation, Attributes.EA, Attributes.Data, Attributes.Bitmap, Attributes.SecurityDescriptor, Attributes.LoggedUtilityStream)


def samples(d):
	"""Genuine attribute values of all types."""
	s = S.gen_mft(d, True)
	out = []
	for fr in MFT.MasterFileTableParser(S.Guard(s.files[0])).file_records():
		for a in fr.attributes():
			if type(a) is MFT.AttributeRecordResident:
				out.append((a.type_code, bytes(a.value)))
	return s, out


def t_values(d, r):
	"""Values of attributes, cut and spoiled; also given to the class of another type."""
	s, vals = samples(d)
	byclass = {0x10: Attributes.StandardInformation, 0x20: Attributes.AttributeList, 0x30: Attributes.FileName, 0x40: Attributes.ObjectID, 0x60: Attributes.VolumeName, 0x70: Attributes.VolumeInformation, 0x90: Attributes.IndexRoot,
		0xC0: Attributes.ReparsePoint, 0xD0: Attributes.EAInformation, 0xE0: Attributes.EA}
	judge = Judge()
	old = S.JUDGE[0]
	S.JUDGE[0] = judge
	good = 0
	try:
		for _ in range(24):
			if vals and d.chance(80):
				t, b = d.pick(vals)
			else:
				t, b = 0, d.blob(d.int(0, 200))
			c = byclass.get(t)
			if c is None or d.chance(20):
				c = d.pick(VALUE_CLASSES)
			if b and d.chance(70):
				b = spoil(d, b)
			if d.chance(40):
				b = b[:d.int(0, len(b))]
			try:
				v = c(b)
			except Exception as e:
				judge(e, Attributes.GenericAttribute(b))
				continue
			out = [S.canon(v)]
			for n in ('entries', 'index_entries', 'data_parsed'):
				if hasattr(v, n):
					for i, x in enumerate(S.steps(n, getattr(v, n))):
						out.append(x)
						check(i < 100000, '%s.%s goes on for ever over %d bytes', c.__name__, n, len(b))
			if isinstance(v, Attributes.EA):
				out += list(S.wsl_items('ea', v))
			for x in S.steps('slack', MFT.SlackSpace(b).carve):
				out.append(x)
			good += len(out) > 1 and bool(b)
	finally:
		S.JUDGE[0] = old
	for k in judge.errors:
		r.label(k)
	if good:
		r.nontrivial(repr(vals[:3]), good, tuple(judge.errors.items()))
	r.sample('%d values of %d attributes; errors %s' % (good, len(vals), judge.errors))


def t_structures(d, r):
	"""Records, run lists, journal records, directories and boot sectors as bytes."""
	s, vals = samples(d)
	sim = s.sim
	data = s.files[0].data
	judge = Judge()
	old = S.JUDGE[0]
	S.JUDGE[0] = judge
	good = 0

	def attempt(what, fn):
		nonlocal good
		try:
			x = fn()
		except (S.Limit, MemoryError, RecursionError, Violation):
			raise
		except Exception as e:
			judge(e, None)
			return None
		good += 1
		return x
	try:
		for _ in range(16):
			k = d.uni(0, 7)
			if k == 0:
				o = d.uni(0, len(data) // sim.size - 1) * sim.size
				b = data[o:o + sim.size]
				b = spoil(d, b) if d.chance(80) else b
				if d.chance(20):
					b = b[:d.int(0, len(b))]
				fr = attempt('record', lambda: MFT.FileRecordSegment(b, d.chance(50), d.pick((None, 7))))
				if fr is not None:
					for x in S.record_items(None, MFT.FileRecord(fr, [])):
						pass
			elif k == 1:
				b = spoil(d, ntfs.enc_runs(ntfs.gen_runs(d, d.int(1, 6)), d))
				attempt('runs', lambda: MFT.DecodeMappingPairs(b[:d.int(0, len(b))] if d.bool() else b))
			elif k == 2:
				b = usn.Rec(d).bytes()
				b = spoil(d, b)
				if d.chance(40):
					b = b[:d.int(0, len(b))]
				x = attempt('journal', lambda: USN.GetUsnRecord(b))
				if x is not None:
					S.canon(x)
					if hasattr(x, 'extents'):
						attempt('extents', lambda: list(x.extents()))
			elif k == 3:
				b = d.blob(d.pick((0, 8, 56, d.int(0, 300))))
				for c in (WSL.LXXATTR, WSL.LXATTRB):
					x = attempt('wsl', lambda: c(b))
					if x is not None:
						S.canon(x)
						if hasattr(x, 'extended_attributes'):
							attempt('wsl', lambda: list(x.extended_attributes()))
			elif k == 4:
				raw = b''.join(e.raw for e in fatdir.gen_dir(d, True, 6))
				raw = raw.ljust(-(-max(1, len(raw)) // 512) * 512, b'\x00')
				raw = spoil(d, raw)
				x = attempt('directory', lambda: FAT.DirectoryEntries(raw, d.bool()))
				if x is not None:
					attempt('directory', lambda: list(x.entries(d.pick(('ascii', 'cp437', 'cp1251')))))
			elif k == 5:
				raw = b''.join(x[1] for x in exfat.gen_items(d, 6))
				raw = raw.ljust(-(-max(1, len(raw)) // 512) * 512, b'\x00')
				raw = spoil(d, raw)
				x = attempt('directory', lambda: exFAT.DirectoryEntries(raw, d.bool()))
				if x is not None:
					attempt('directory', lambda: list(x.entries()))
			elif k == 6:
				b = d.blob(512) if d.bool() else spoil(d, bytes(512))
				b = b[:510] + b'\x55\xAA' if d.chance(80) else b
				x = attempt('boot', lambda: BootSector.BootSector(b))
				if x is not None:
					S.canon(x)
			else:
				b = spoil(d, d.blob(512) if d.bool() else b'\xEB\x3C\x90MSDOS5.0' + struct.pack('<HBHBHHBHHHLL', 512, 1, 1, 2, 512, 2880, 0xF0, 9, 18, 2, 0, 0) + bytes(474) + b'\x55\xAA')
				x = attempt('boot', lambda: FAT.BSBPB(b, d.bool()))
				if x is not None:
					S.canon(x)
					for fn in (FAT.IsFileSystem12, FAT.IsFileSystem16, FAT.IsFileSystem32):
						attempt('type', lambda: fn(x, True))
	finally:
		S.JUDGE[0] = old
	for k in judge.errors:
		r.label(k)
	if good:
		r.nontrivial(data[:64], good, tuple(judge.errors.items()))
	r.sample('%d structures accepted; errors %s' % (good, judge.errors))


TESTS = [Test(k, t_damage(k), q, q * 60) for k, q in (('mft', 1500), ('volume', 700), ('usn', 1000), ('log', 1500), ('vss', 1500), ('fat', 700), ('exfat', 500), ('gpt', 500), ('mbr', 1000), ('move', 600), ('mem', 500))]
TESTS += [
	Test('values', t_values, 700, 30000),
	Test('structures', t_structures, 700, 30000),
	Test('local-mft', t_local_mft, 980, 40000),
	Test('local-fat', t_local_fat, 980, 40000),
	Test('local-exfat', t_local_exfat, 840, 30000),
	Test('local-vss', t_local_vss, 980, 40000),
	Test('local-usn', t_local_usn, 980, 40000),
	Test('local-move', t_local_move, 560, 20000),
	Test('local-mem', t_local_mem, 84, 4000),
]
