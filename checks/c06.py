"""C06: full paths and orphans."""
from checks import Test
from vlib.engine import *
from vlib import ntfs
from vlib.mftsim import Sim, ORPHAN
from dfir_ntfs import MFT

RULE = ('A case simulates a history of create/mkdir/link/delete/reuse operations on a file table (optionally followed by damage to some records: torn, unreadable attributes, nameless, '
	'cyclic, not a directory, stale parent), then compares every path of every readable file with the path computed from the simulation. Non-trivial: at least one path of depth two or more. '
	'Distinct by the sorted list of expected paths.')


def expected_ok(sim, fn, path):
	kind, comps = sim.path_of(fn)
	if kind == 'ok':
		return path == '/' + '/'.join(comps), kind, comps
	if kind == 'orphan':
		return path == ORPHAN + '/' + '/'.join(comps), kind, comps
	# A cycle: the marker followed by some part of the real chain ending with the name.
	for k in range(len(comps)):
		if path == ORPHAN + '/' + '/'.join(comps[k:]):
			return True, kind, comps
	return False, kind, comps


def judge(sim, data, r):
	parser = MFT.MasterFileTableParser(ntfs.ROFile(data))
	deep = 0
	allpaths = []
	for base in sim.bases():
		fr = parser.get_file_record_by_number(base.number)
		if not sim.names_ok(base):
			continue
		fns = sim.file_names(base)
		got = parser.build_full_paths(fr, True)
		plain = parser.build_full_paths(fr)
		eq(plain, [p for p, _ in got], 'paths with and without attributes for record %d' % base.number)
		eq(len(got), len(fns), 'number of paths of record %d' % base.number)
		left = list(fns)
		seen_short = False
		for path, att in got:
			short = not (att.get_flags() & 1 or att.get_flags() == 0)
			check(not (seen_short and not short), 'record %d: a long name after a short one: %r', base.number, plain)
			seen_short = seen_short or short
			key = (att.get_file_name(), att.get_parent_directory(), att.get_flags(), att.value)
			m = [f for f in left if (f.name, f.parent, f.flags, f.value()) == key]
			check(m, 'record %d: path %r has an unknown attribute', base.number, path)
			left.remove(m[0])
			ok, kind, comps = expected_ok(sim, m[0], path)
			check(ok, 'record %d: path %r, expected %s %r', base.number, path, kind, comps)
			r.label(kind)
			if len(comps) >= 2:
				deep += 1
			allpaths.append(path)
	return deep, allpaths


def t_tree(d, r):
	sim = Sim(d)
	sim.history(3, 26)
	data = sim.build()
	deep, allpaths = judge(sim, data, r)
	if deep:
		r.nontrivial(tuple(allpaths))
	r.sample(allpaths[-5:])


def t_damage(d, r):
	sim = Sim(d)
	for _ in range(d.uni(1, 3)):
		sim.create(True)
	sim.history(3, 22)
	hits = sim.damage(d.uni(1, 4))
	data = sim.build()
	deep, allpaths = judge(sim, data, r)
	for k, _ in hits:
		r.label('damage-' + k)
	if deep:
		r.nontrivial(tuple(allpaths), tuple(hits))
	r.sample('%s %s' % (hits, allpaths[-4:]))


def t_deep(d, r):
	"""Long chains and long cycles of directories."""
	sim = Sim(d, 1024, max_number=400)
	p = sim.recs[5]
	chain = []
	for _ in range(d.int(2, 60)):
		p2 = sim.create(True, p)
		if p2 is None or not p2.names() or p2.children:
			if p2 is not None and p2.names():
				p = p2
				chain.append(p)
			continue
		p = p2
		chain.append(p)
	if not chain:
		raise Discard()
	sim.create(False, p)
	cyc = d.bool()
	if cyc:
		a = d.pick(chain)
		b = d.pick(chain)
		for f in a.attrs:
			if f.fn is not None:
				f.fn.parent = b.ref()
				f.value = f.fn.value()
	deep, allpaths = judge(sim, sim.build(), r)
	r.nontrivial(len(chain), cyc, tuple(allpaths[-3:]))
	r.sample('depth %d cycle %s' % (len(chain), cyc))


def t_far(d, r):
	"""More than 65536 records."""
	sim = Sim(d, 1024)
	sim.far = True
	sim.history(8, 30)
	deep, paths = judge(sim, sim.build(), r)
	if max(sim.recs) > 65535 and deep:
		r.nontrivial(tuple(paths))
	r.sample('records %s: %s' % (sorted(sim.recs)[-4:], paths[-3:]))


TESTS = [
	Test('far', t_far, 32, 800, shards=4, qsec=20),
	Test('tree', t_tree, 12000, shards=3, qsec=30),
	Test('damage', t_damage, 16000, shards=4, qsec=30),
	Test('deep', t_deep, 480, shards=1, qsec=30),
]
