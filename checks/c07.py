"""C07: lookup by number and by path."""
from checks import Test
from vlib.engine import *
from vlib import ntfs
from vlib.mftsim import Sim, NAMES, TRICKY, up
from vlib.ntfs import ref
from dfir_ntfs import MFT
from checks.c05 import judge_file

RULE = ('A case simulates a file table history (with deletion, reuse, hard links, short names, damage) and then makes generated lookups: by number with right/wrong/absent expected sequence numbers, '
	'for base and extension records; by path, existing and not, with case changes, trailing separators and any mix of long and short names. Non-trivial: a path of two or more components was found, '
	'or an extension record number was resolved. Distinct by table and query.')


def model_by_number(sim, num, seq, allow):
	"""The base record or None (rejected)."""
	x = sim.readable(num)
	if x is None:
		return None
	if seq is not None and x.gen != seq:
		return None
	if not x.base:
		return x
	if not allow:
		return None
	b = sim.readable(x.base & 0xFFFFFFFFFFFF)
	if b is None or b.base or b.gen != x.base >> 48:
		return None
	return b


def t_far_number(d, r):
	"""More than 65536 records."""
	t_number(d, r, True)


def t_number(d, r, far=False):
	sim = Sim(d, 1024 if far else None)
	sim.far = far
	sim.history(4, 22)
	if d.chance(40):
		sim.damage(d.uni(1, 3), ('gone', 'stale'))
	data = sim.build()
	parser = MFT.MasterFileTableParser(ntfs.ROFile(data))
	queries = []
	for num in list(sim.recs) + [1, 2, sim.count, sim.count + 1, sim.count + 100000, d.int(0, (1 << 48) - 1)]:
		x = sim.recs.get(num)
		seqs = {None}
		if x is not None:
			seqs |= {x.gen, (x.gen + 1) & 0xFFFF, (x.gen - 1) & 0xFFFF, x.seq, 0, 1, 0xFFFF}
		else:
			seqs |= {1}
		for seq in seqs:
			for allow in (True, False):
				queries.append((num, seq, allow))
	hit = 0
	for num, seq, allow in queries:
		want = model_by_number(sim, num, seq, allow)
		what = 'lookup of %d with sequence %r (extension allowed: %s)' % (num, seq, allow)
		call = (lambda: parser.get_file_record_by_number(num, seq, allow)) if not allow else (lambda: parser.get_file_record_by_number(num, seq))
		if want is None:
			raises(MFT.MasterFileTableException, call, what)
		else:
			try:
				fr = call()
			except MFT.MasterFileTableException as e:
				raise Violation('%s: rejected (%s)' % (what, e))
			judge_file(sim, want, fr)
			if want.number != num:
				hit += 1
	r.label('extension-hit', hit > 0)
	if hit or len(sim.recs) > 6:
		r.nontrivial(data)
	r.sample('%d queries, %d via extension' % (len(queries), hit))


def all_paths(sim, strict):
	"""[(components, record)] for every allocated file through every combination of names."""
	memo = {}

	def dir_paths(reference, depth):
		num = reference & 0xFFFFFFFFFFFF
		if num == 5:
			return [()]
		if depth > 40:
			return []
		if (reference, depth) not in memo:
			memo[(reference, depth)] = dir_paths2(reference, depth)
		return memo[(reference, depth)]

	def dir_paths2(reference, depth):
		p = sim.parent_of(reference)
		if p is None:
			return []
		if strict and not (p.is_dir and p.in_use and sim.file_ok(p)):
			return []
		out = []
		for fn in sim.file_names(p):
			for up in dir_paths(fn.parent, depth + 1):
				out.append(up + (fn.name,))
				if len(out) > 64:
					return out
		return out

	res = []
	for b in sim.bases(True):
		if b.number in (0, 3, 5):
			pass
		if strict and not sim.file_ok(b):
			continue
		for fn in sim.file_names(b):
			for up in dir_paths(fn.parent, 0):
				res.append((up + (fn.name,), b))
	return res


def swapcase(d, s):
	seed = d.seed32()
	out = ''
	for i, c in enumerate(s):
		if (seed >> (i % 32)) & 1:
			k = c.swapcase()
			out += k if len(k) == 1 else c
		else:
			out += c
	return out


def t_path(d, r):
	sim = Sim(d)
	if d.chance(30):
		sim.names = TRICKY
	for _ in range(d.uni(0, 3)):
		sim.create(True)
	sim.history(3, 22)
	if d.chance(40):
		sim.damage(d.uni(1, 2), ('gone', 'badattr', 'shortname', 'nameless', 'badparent', 'cycle'))
	data = sim.build()
	parser = MFT.MasterFileTableParser(ntfs.ROFile(data))
	strict = all_paths(sim, True)
	loose = all_paths(sim, False)
	queries = []
	for _ in range(d.int(3, 10)):
		k = d.uni(0, 9)
		pool = strict if k <= 6 and strict else loose
		if not pool:
			continue
		comps, _ = d.pick(pool)
		comps = list(comps)
		if k == 7:
			comps.append(d.name(1, 4, sim.names))
		elif k == 8:
			i = d.uni(0, len(comps) - 1)
			comps[i] = d.pick((comps[i] + 'x', comps[i][:-1] + 'q', comps[i].upper(), comps[i].lower(), comps[i].casefold()))
		elif k == 9:
			comps = [d.pick(pool)[0][-1] for _ in range(d.uni(1, 3))] + comps[-1:]
			comps = [c for c in comps if c != '.'] or ['zz']
		if any(c in ('.', '..', '') for c in comps):
			continue
		case = d.bool()
		if d.chance(50):
			comps = [swapcase(d, c) for c in comps]
		queries.append((tuple(comps), case, d.chance(30)))
	deep = 0
	for comps, case, slash in queries:
		norm = (lambda x: tuple(x)) if case else (lambda x: tuple(up(c) for c in x))
		path = '/' + '/'.join(comps) + ('/' if slash else '')
		def match(pool):
			return [b.number for p, b in pool if norm(p) == norm(comps) and (not slash or b.is_dir)]
		s, l = match(strict), match(loose)
		got = parser.get_file_record_by_path(path, case)
		what = 'path %r (case sensitive: %s)' % (path, case)
		if got is None:
			check(not s, '%s not found, expected one of %s', what, s)
		else:
			num = got.get_master_file_table_number()
			check(num in s or num in l, '%s: found %d, expected %s', what, num, s or 'nothing')
			check(got.is_in_use(), '%s: a deleted file was returned', what)
			b = sim.recs[num]
			judge_file(sim, b, got)
			if len(comps) >= 2:
				deep += 1
		r.label('found' if s else 'absent')
	root = parser.get_file_record_by_path('/')
	eq(root.get_master_file_table_number(), 5, 'root lookup')
	for bad in ('', 'abc', '//', '/a//b', '/./b', '/../b', 'a/b'):
		raises(MFT.MasterFileTableException, parser.get_file_record_by_path, 'invalid path %r' % bad, bad)
	if deep:
		r.nontrivial(data, tuple(queries))
	r.sample(queries[:3])


TESTS = [
	Test('far', t_far_number, 24, 600, shards=4, qsec=20),
	Test('number', t_number, 4500, shards=3, qsec=30),
	Test('path', t_path, 15000, shards=5, qsec=30),
]
