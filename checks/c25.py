"""C25: exFAT directories and walks."""
import struct
from checks import Test
from vlib.engine import *
from vlib import exfat as X
from dfir_ntfs.addons import exFAT as E

RULE = ('Directories of generated entry sets (live, deleted, partly deleted, wrong checksum, count, order, name or length, vendor extensions, left-over name pieces, padding, several labels and bitmaps) and whole volumes '
	'with live, deleted, still allocated, reused, looping and damaged directories, compared item by item with an independent reading of what was written. Non-trivial: a deleted, left-over or rejected set, or a '
	'special subdirectory. Distinct by content.')


def norm(items):
	out = []
	for x in items:
		n = type(x).__name__
		if n == 'OrphanEntry':
			out.append(('orphan', x.name_partial))
		elif n == 'VolumeLabelEntry':
			out.append(('label', x.volume_label))
		elif n == 'AllocationBitmapEntry':
			out.append(('bitmap',) + tuple(x))
		else:
			out.append(('file', dict(x._asdict())))
	return out


def brief(w):
	return w[1]['name'] if w[0] == 'file' else w[1]


def same(got, want, what):
	for i, (a, b) in enumerate(zip(got, want)):
		if a != b:
			if a[0] == b[0] == 'file':
				check(False, '%s: item %d (%s): (field, got, expected) %s', what, i, b[1]['name'], [(k, a[1].get(k), b[1][k]) for k in b[1] if a[1].get(k) != b[1][k]][:3])
			check(False, '%s: item %d: got %s %s, expected %s %s', what, i, a[0], brief(a), b[0], brief(b))
	check(len(got) == len(want), '%s: %d items, expected %d: %s', what, len(got), len(want), [brief(x) for x in (got[len(want):] or want[len(got):])[:3]])


def collect(it, exc):
	out = []
	try:
		for x in it:
			out.append(x)
	except exc:
		return norm(out), True
	return norm(out), False


def expected(buf, root):
	out = []
	try:
		for x in X.model(buf, root):
			out.append(x)
	except X.Invalid:
		return out, True
	return out, False


def t_dir(d, r):
	root = d.chance(40)
	items = X.gen_items(d, d.pick((3, 10, 20)))
	if d.chance(30):
		items.append(('file', X.file_set(X.gen_name(d), X.gen_meta(d, True, d.u(32)))))
	if root or d.chance(10):
		for _ in range(d.int(0, 3)):
			k = d.pickw([(40, 'label'), (40, 'bitmap'), (5, 'badlabel'), (5, 'upcase')])
			e = {'label': lambda: X.label_entry(d.name(0, 15 if d.chance(90) else 11, X.ALPHA)), 'bitmap': lambda: X.bitmap_entry(d.u(8), d.u(32), d.u(64)), 'badlabel': lambda: X.label_entry(d.pick(('a/b', 'a\x00b', '')), d.pick((1, 3, 15, 16, 255))), 'upcase': lambda: X.upcase_entry(5, 9)}[k]()
			if d.chance(15):
				e = X.delete(e)
			items.insert(d.int(0, len(items)), (k, e))
	if d.chance(15):
		items.insert(d.int(0, len(items)), ('end', d.pick((bytes(32), b'\x80' + d.blob(31)))))
	raw = b''.join(x[1] for x in items)
	if d.chance(10) and raw:
		# Something unaligned to sets: drop an entry.
		i = d.int(0, len(raw) // 32 - 1) * 32
		raw = raw[:i] + raw[i + 32:]
	if d.chance(70) or len(raw) % 512 or not raw:
		raw = raw.ljust(max(512, X.cdiv(len(raw), 512) * 512 + d.pick((0, 0, 512))), b'\x00')
	got, failed = collect(E.DirectoryEntries(raw, root).entries(), E.DirectoryEntriesException)
	want, wfail = expected(raw, root)
	same(got, want, 'directory')
	eq(failed, wfail, 'refusal of the directory')
	# Every complete live set that nothing disturbs is there: the model must agree with what was meant.
	kinds = set(k for k, _ in items)
	for k in kinds:
		r.label(k)
	r.label('refused', failed)
	if kinds - {'file', 'skip'}:
		r.nontrivial(raw)
	r.sample('%s: %s' % ('root' if root else 'directory', [brief(w) for w in want[:4]]))


def t_soup(d, r):
	"""Entries in any order."""
	root = d.chance(20)
	base = []
	for _ in range(d.int(1, 3)):
		x = X.file_set(X.gen_name(d)[:40], X.gen_meta(d))
		base.append([x[i:i + 32] for i in range(0, len(x), 32)])
	out = []
	for _ in range(32):
		b = d.pick(base)
		k = d.pickw([(30, 'seq'), (40, 'any'), (10, 'del'), (10, 'bits'), (3, 'blob')])
		if k == 'seq':
			out += b
		elif k == 'any':
			out.append(d.pick(b))
		elif k == 'del':
			out += [bytes([e[0] & 0x7F]) + e[1:] for e in (b if d.bool() else b[:d.int(1, len(b))])]
		elif k == 'bits':
			e = bytearray(d.pick(b))
			e[d.pick((0, 0, 1, d.int(0, 31)))] ^= 1 << d.int(0, 7)
			out.append(bytes(e))
		else:
			out.append(d.blob(32))
	out = out[:d.pick((16, 32))]
	raw = b''.join(out)
	raw = raw[:len(raw) // 512 * 512]
	if not raw:
		raise Discard()
	got, failed = collect(E.DirectoryEntries(raw, root).entries(), E.DirectoryEntriesException)
	want, wfail = expected(raw, root)
	same(got, want, 'mixed entries')
	eq(failed, wfail, 'refusal')
	if len(want) > 1:
		r.nontrivial(raw)
	r.label('orphan', any(w[0] == 'orphan' for w in want))
	r.sample(str([brief(w) for w in want[:4]]))


def t_set(d, r):
	"""One live set: reported with exact fields; any damaged bit makes it disappear, except in a deleted one."""
	name, m = X.gen_name(d), X.gen_meta(d, d.bool(), d.u(32))
	raw = X.file_set(name, m)
	eq(E.EntrySetChecksum(raw), struct.unpack_from('<H', raw, 2)[0], 'checksum of the set')
	buf = lambda x: x.ljust(X.cdiv(len(x), 512) * 512, b'\x00')
	want = dict(is_deleted=False, is_directory=m['attr'] & 0x10 > 0, name=name, atime=X.stamp(m['a'][0]), atz=X.zone(m['a'][2]), mtime=X.stamp(m['m'][0], m['m'][1]), mtz=X.zone(m['m'][2]), ctime=X.stamp(m['c'][0], m['c'][1]), ctz=X.zone(m['c'][2]),
		size=m['size'], valid_data_length=m['vdl'], attributes=m['attr'], first_cluster=m['cl'], is_encrypted=m['dflags'] & 0x8000 > 0, no_fat_chain=m['sflags'] & 2 > 0)
	same(norm(E.DirectoryEntries(buf(raw)).entries()), [('file', want)], 'one set')
	same(norm(E.DirectoryEntries(buf(X.delete(raw))).entries()), [('file', dict(want, is_deleted=True))], 'one deleted set')
	for _ in range(6):
		x = bytearray(raw)
		o = d.int(0, len(raw) - 1)
		x[o] ^= 1 << d.int(0, 7)
		if x[0] & 0x80:
			got = [g for g in norm(E.DirectoryEntries(buf(bytes(x))).entries()) if g[0] == 'file' and not g[1]['is_deleted']]
			check(not got, 'a set with a damaged byte %d is still reported: %s', o, got)
	for bad in (0, 31, 33, len(raw) - 1):
		raises(ValueError, E.EntrySetChecksum, 'length', raw[:bad])
	for bad in (0, 32, 511, 513, 480):
		raises(E.DirectoryEntriesException, E.DirectoryEntries, 'directory of %d bytes' % bad, bytes(bad))
	r.nontrivial(raw)
	r.sample(name[:40])


def heading(w):
	p = brief(w)
	return int(p[18:p.index('>')]) if p.startswith('<Orphan directory ') else None


def t_walk(d, r):
	t = X.Tree(d)
	s = t.image()
	limit = size = None
	if d.chance(10):
		limit = t.g.cluster_offset(d.pick(sorted(t.clusters))) + d.pick((0, 1, t.g.cs - 1, t.g.cs))
		need = max(t.g.cluster_offset(c) + t.g.cs for c in t.fat_chain(t.root) + t.bm)
		if limit < max(need, 1 << 20):
			limit = None
		elif d.bool():
			size = limit
		else:
			s.size = t.offset + limit
	scan = d.chance(25)
	root, bad = expected(t.data(t.root), True)
	if not any(x[0] == 'bitmap' and x[1] == t.g.active for x in root):
		raises(E.FileSystemException, E.FileSystemParser, 'no allocation bitmap in force', s, t.offset, size)
		raise Discard()
	p = E.FileSystemParser(s, t.offset, size)
	main, failed, orphans = t.reference(scan, limit)
	got, gfail = collect(p.walk(scan), E.FileSystemException)
	eq(gfail, failed, 'refusal of the root directory')
	same(got[:len(main)], main, 'exFAT walk')
	groups = {}
	for w in got[len(main):]:
		h = None if w[0] == 'label' else heading(w)
		check(h is not None, 'extra item %s', brief(w))
		groups.setdefault(h, []).append(w)
	for h in groups:
		check(h in orphans, 'unexpected orphan directory %d', h)
	for c, alts in orphans.items():
		g = groups.get(c, [])
		if g not in alts:
			check(len(alts) > 1, 'orphan directory %d: got %s, expected %s', c, [brief(x) for x in g][:5], [brief(x) for x in alts[0]][:5])
			check(False, 'orphan directory %d: got %s, none of the %d deleted sets gives that', c, [brief(x) for x in g][:5], len(alts))
	special = t.kinds & {'deldir', 'delchained', 'reusedfile', 'reuseddir', 'loop', 'brokenchain', 'invalid', 'zero', 'oddsize', 'end'}
	for k in special:
		r.label(k)
	r.label('orphan directory', bool(groups))
	r.label('two tables', t.g.nfats == 2)
	r.label('failed root', failed)
	if special:
		r.nontrivial(repr(main), repr(orphans))
	r.sample('%d items, %d orphan directories: %s' % (len(main), len(groups), [brief(w) for w in main[-3:]]))


def t_deep(d, r):
	n = d.pick((50, 1100, d.int(100, 1200)))
	t = X.Tree(d, False)
	g = t.g
	free = [c for c in range(2, g.count + 2) if c not in t.used][:n + 1]
	n = len(free) - 1
	m = X.gen_meta(d)
	top = X.file_set('D', dict(m, attr=0x10, cl=free[0], size=g.cs, vdl=g.cs, sflags=3))
	body = X.bitmap_entry(g.active, t.bm[0], t.blen) + top
	t.clusters[t.root] = body.ljust(g.cs, b'\x00')
	t.tab[t.root] = X.EOC
	for i, c in enumerate(free):
		e = X.file_set('D', dict(m, attr=0x10, cl=free[i + 1], size=g.cs, vdl=g.cs, sflags=3)) if i < n else X.file_set('last.txt', dict(m, attr=0x20))
		t.clusters[c] = e.ljust(g.cs, b'\x00')
	got = [x.name for x in E.FileSystemParser(t.image(), t.offset).walk()]
	want = ['/D' * (i + 1) for i in range(n + 1)] + ['/D' * (n + 1) + '/last.txt']
	check(got == want, '%d nested directories: %d items, expected %d', n, len(got), len(want))
	r.nontrivial(n, g.cs)
	r.sample('%d nested directories' % n)


def t_chars(d, r):
	"""Every character at one position of a name or of a label."""
	bad = set(range(32)) | set(b'"*/:<>?\\|')
	name = d.name(1, 30, ('abcdefgh .0-_', '\u4e2d\u6587a', 'ab\U0001F600'))
	pos = d.uni(0, len(name) - 1)
	for v in list(range(1, 0x180)) + [0x2028, 0xFFFD, 0xE000, 0x1F600, d.int(0x180, 0xD7FF), 0xD800, 0xDC00, 0xDFFF]:
		w = name[:pos] + chr(v) + name[pos + 1:]
		u = w.encode('utf-16le', 'surrogatepass')
		w = u.decode('utf-16le', 'replace')
		n = len(u) // 2
		pieces = [u[i:i + 30] for i in range(0, len(u), 30)]
		if len(pieces[-1]) < 30:
			pieces[-1] = (pieces[-1] + b'\x00\x00').ljust(30, b'\x00')
		eq(E.BuildName(pieces, n), None if v in bad or w in ('.', '..') else w, 'name %r' % w)
		if n <= 11:
			eq(E.BuildLabel(u.ljust(22, b'\x00'), n), None if v in bad else w, 'label %r' % w)
	r.nontrivial(name, pos)
	r.sample('%r, character %d' % (name, pos))


TESTS = [
	Test('chars', t_chars, 750, 3000, shards=1),
	Test('dir', t_dir, 15000, 150000),
	Test('soup', t_soup, 7500, 60000),
	Test('set', t_set, 3750, 30000),
	Test('walk', t_walk, 6250, 60000),
	Test('deep', t_deep, 40, 100),
]
