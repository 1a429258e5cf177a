"""C23: walking a FAT volume."""
from checks import Test
from vlib.engine import *
from vlib import fat as W
from vlib import fatdir as D
from vlib.fattree import Tree
from dfir_ntfs.addons import FAT as F

RULE = ('Generated volumes of all variants with a tree of live, fragmented, deleted, still chained, reused, looping, damaged and invalid directories, left-over entries and remnants after an end mark; the walk is compared '
	'item by item with a reference walk over what was written. Non-trivial: at least one subdirectory that is deleted, reused, looping or damaged, or a tree of three levels. Distinct by image.')

F.WARN_FUNC = lambda *a, **k: None


def norm(items):
	out = []
	for x in items:
		if type(x).__name__ == 'OrphanLongEntry':
			out.append(('orphan', x.long_name_partial))
		else:
			out.append(('file', dict(x._asdict())))
	return out


def path_of(w):
	return w[1] if w[0] == 'orphan' else w[1]['short_name']


def compare(p, want, enc, scan, what):
	if want is None:
		try:
			list(p.walk(enc, scan))
		except (F.FileSystemException, ValueError):
			return
		check(False, '%s: a volume without a readable root was walked', what)
	main, orphans = want
	items = list(p.walk(enc, scan))
	D.compare(items[:len(main)], main, what)
	rest = norm(items[len(main):])
	groups = {}
	for w in rest:
		pth = path_of(w)
		check(pth.startswith('<Orphan directory '), '%s: extra item %s', what, pth)
		groups.setdefault(int(pth[18:pth.index('>')]), []).append(w)
	eq(sorted(groups), sorted(k for k in orphans if orphans[k]), what + ': orphan directories')
	for k in groups:
		for a, b in zip(groups[k], orphans[k]):
			check(a == b, '%s: orphan directory %d: got %s, expected %s', what, k, a, b)
		eq(len(groups[k]), len(orphans[k]), '%s: items of orphan directory %d' % (what, k))


def t_walk(d, r):
	t = Tree(d, d.pick((12, 16, 32)))
	enc = d.pick(('ascii', 'cp437', 'cp1251'))
	s = t.v.image()
	limit = None
	size = None
	if d.chance(10) and t.v.clusters:
		limit = t.g.cluster_offset(d.pick(sorted(t.v.clusters))) + d.pick((0, 1, t.cs - 1, t.cs))
		if limit < 4096:
			limit = None
		elif d.bool():
			size = limit
		else:
			s.size = t.v.offset + limit
	scan = d.chance(25)
	p = F.FileSystemParser(s, t.v.offset, size)
	want = t.reference(enc, scan, limit)
	compare(p, want, enc, scan, 'FAT%d walk' % t.g.typ)
	special = t.kinds & {'deldir', 'delchained', 'reusedfile', 'reuseddir', 'loop', 'brokenchain', 'invalid', 'zero', 'null'}
	for k in special:
		r.label(k)
	r.label('fat%d' % t.g.typ)
	if want is not None:
		r.label('orphan directory', bool(want[1]))
		deep = max([path_of(w).count('/') for w in want[0]] or [0])
		r.label('three levels', deep > 3)
		if special or deep > 2:
			r.nontrivial(repr(want))
		r.sample('FAT%d, %d items, %d orphan directories: %s' % (t.g.typ, len(want[0]), len(want[1]), [path_of(w) for w in want[0][-3:]]))


def t_deep(d, r):
	"""A long chain of nested directories is listed to the end."""
	typ = d.pick((12, 16, 32))
	n = d.pick((50, 1100, d.int(100, 1200)))
	g = W.Geo(typ, 512, 1, {12: 4000, 16: 5000, 32: 6000}[typ], rootent=16)
	v = W.Volume(g, dict(rootclus=2))
	m = lambda cl: dict(attr=0x10, nt=0, ctenth=0, ctime=0, cdate=0x21, adate=0x21, cl=cl, mtime=0, mdate=0x21, size=0)
	base = 3
	top = D.put(b'D          ', m(base))
	if typ == 32:
		v.chain([2])
		v.write([2], top)
	else:
		v.rootbuf = top
	for i in range(n):
		c = base + i
		v.chain([c])
		x = D.put(b'.          ', m(c)) + D.put(b'..         ', m(c - 1 if i else 0))
		if i < n - 1:
			x += D.put(b'D          ', m(c + 1))
		else:
			x += D.put(b'LAST    TXT', dict(m(0), attr=0x20))
		v.write([c], x)
	p = F.FileSystemParser(v.image())
	got = [x.short_name for x in p.walk()]
	want = []
	path = ''
	for i in range(n):
		path += '/D'
		want += [path, path + '/.', path + '/..']
	want.append(path + '/LAST.TXT')
	check(got == want, '%d nested directories: %d items, expected %d', n, len(got), len(want))
	r.nontrivial(typ, n)
	r.sample('FAT%d, %d nested directories' % (typ, n))


TESTS = [
	Test('walk', t_walk, 6000, 200000),
	Test('deep', t_deep, 16, 100),
]
