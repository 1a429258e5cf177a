"""C05: files spread over several records."""
from checks import Test
from vlib.engine import *
from vlib import ntfs
from vlib.mftsim import Sim, A
from vlib.ntfs import ref
from dfir_ntfs import MFT

RULE = ('A case simulates a history (create, split, delete, free an extension, reuse of numbers with sequence wrap-around, damage) of a file table and compares the enumeration, the attributes of '
	'every joined file and merged/requested streams with the simulation. Non-trivial: at least one file with an extension record. Distinct by table bytes.')


def attr_key(a):
	if type(a) is MFT.AttributeRecordResident:
		return ('r', a.type_code, a.name, bytes(a.value))
	return ('n', a.type_code, a.name, tuple(a.data_runs), a.lowest_vcn, a.highest_vcn, a.file_size)


def judge_file(sim, base, fr):
	n = base.number
	eq(fr.get_master_file_table_number(), n, 'number of a record')
	eq(fr.get_sequence_number(), base.seq, 'sequence number of record %d' % n)
	eq(fr.is_in_use(), base.in_use, 'allocation state of record %d' % n)
	eq(fr.get_flags(), (1 if base.in_use else 0) | (2 if base.is_dir else 0), 'flags of record %d' % n)
	eq(fr.get_logfile_sequence_number(), base.lsn, 'LSN of record %d' % n)
	exts = sim.extensions(base)
	if hasattr(fr, 'child_frs_list'):
		eq([c.get_master_file_table_number() for c in fr.child_frs_list], [x.number for x in exts], 'extension records of %d' % n)
	if not sim.file_ok(base):
		return len(exts)
	want = [a.key() for a in sim.file_attrs(base)]
	got = [attr_key(a) for a in fr.attributes()]
	# The base record first, then each extension.
	eq(sorted(map(repr, got)), sorted(map(repr, want)), 'attributes of file %d' % n)
	eq(got, want, 'attribute order of file %d' % n)

	# Merged view.
	streams = {}
	for a in sim.file_attrs(base):
		if a.runs is not None:
			streams.setdefault((a.type, a.name), []).append(a)
	merged = list(fr.attributes(True))
	res = [attr_key(a) for a in merged if type(a) is MFT.AttributeRecordResident]
	eq(res, [k for k in want if k[0] == 'r'], 'resident attributes of the merged file %d' % n)
	nonres = {}
	for a in merged:
		if type(a) is not MFT.AttributeRecordResident:
			nonres.setdefault((a.type_code, a.name), []).append(a)
	for (t, name), pieces in streams.items():
		pieces = sorted(pieces, key=lambda a: a.lowest)
		zero = [a for a in pieces if a.lowest == 0]
		good = len(zero) == 1
		vcn = 0
		for a in pieces:
			if a.lowest != vcn:
				good = False
			vcn = a.highest + 1
		what = 'stream (%x, %r) of file %d' % (t, name, n)
		use = {0x80: False, 0xA0: True}.get(t)
		if good:
			got = nonres.get((t, name), [])
			eq(len(got), 1, 'merged attributes for ' + what)
			m = got[0]
			allruns = [x for a in pieces for x in a.runs]
			eq(list(m.data_runs), allruns, 'runs of merged ' + what)
			eq((m.lowest_vcn, m.highest_vcn, m.file_size), (0, pieces[-1].highest, zero[0].size), 'VCNs and size of merged ' + what)
			if use is not None:
				arg = name
				eq(fr.get_data_runs(arg, use), allruns, 'runs of ' + what)
				eq(fr.get_data_size(arg, use), zero[0].size, 'size of ' + what)
				if name is None:
					eq(fr.get_data_runs('', use), allruns, 'runs of ' + what)
					eq(fr.get_data_size('', use), zero[0].size, 'size of ' + what)
		elif use is not None:
			raises(MFT.MasterFileTableException, fr.get_data_runs, 'runs of a broken ' + what, name, use)
	for use, t in ((False, 0x80), (True, 0xA0)):
		for name in (None, 'nosuch'):
			if (t, name) not in streams:
				eq(fr.get_data_runs(name, use), None, 'runs of an absent stream of %d' % n)
				eq(fr.get_data_size(name, use), None, 'size of an absent stream of %d' % n)
	return len(exts)


def judge(sim, data, r):
	parser = MFT.MasterFileTableParser(ntfs.ROFile(data))
	readable = [x for x in sim.recs.values() if x.state != 'gone']
	eq(parser.statistics, (len(readable), sum(1 for x in readable if x.base)), 'statistics')
	ext = 0
	for only in (False, True):
		bases = sim.bases(only)
		got = list(parser.file_records(only))
		eq([g.get_master_file_table_number() for g in got], [b.number for b in bases], 'enumerated records (in use only: %s)' % only)
		for b, fr in zip(bases, got):
			k = judge_file(sim, b, fr)
			ext += k
			if k:
				r.label('ext')
				r.label('ext-deleted', not b.in_use)
				r.label('wrap', b.seq == 0 or b.gen == 0xFFFF)
	for b in sim.bases():
		judge_file(sim, b, parser.get_file_record_by_number(b.number))
	return ext


def t_history(d, r):
	sim = Sim(d)
	sim.history(4, 24)
	for _ in range(d.uni(0, 2)):
		sim.stream()
	data = sim.build(extra=d.uni(0, 2))
	if d.chance(15):
		data += data[:d.int(1, sim.size - 1)]
	if judge(sim, data, r):
		r.nontrivial(data)
	r.sample([(x.number, x.seq, x.in_use, hex(x.base), len(x.attrs)) for x in sim.recs.values()][-6:])


def t_damage(d, r):
	sim = Sim(d)
	sim.history(4, 20)
	for _ in range(d.uni(1, 3)):
		sim.stream()
	hits = sim.damage(d.uni(1, 3), ('gone', 'badattr', 'stale', 'nameless'))
	# Remove or duplicate a piece of a stream.
	for _ in range(d.uni(0, 2)):
		cands = [(x, a) for x in sim.recs.values() for a in x.attrs if a.runs is not None]
		if cands:
			x, a = d.pick(cands)
			if d.bool():
				x.attrs.remove(a)
			elif x.room(sim.size) > len(a.raw(0)) + 40:
				x.attrs.append(A(a.type, a.name, runs=a.runs, lowest=a.lowest, highest=a.highest, size=a.size, alloc=a.alloc))
	data = sim.build()
	if judge(sim, data, r):
		r.nontrivial(data)
	r.sample('%s' % (hits,))


def t_split(d, r):
	"""One file whose stream is split over many extension records stored in any order."""
	sim = Sim(d, max_number=90)
	sim.create()
	base = sim.files()[0]
	k = d.int(2, 20)
	pieces = []
	low = 0
	for i in range(k):
		runs = ntfs.gen_runs(d, d.int(1, 4), total=1 << 33)
		ln = sum(l for _, l in runs)
		pieces.append(A(0x80, 'big' if d.chance(0) else None, runs=runs, lowest=low, highest=low + ln - 1))
		low += ln
	pieces[0].size = pieces[0].alloc = d.int(0, min(low * 512, 1 << 62))
	base.attrs = [a for a in base.attrs if a.type != 0x80]
	for c in base.children:
		c.attrs = [a for a in c.attrs if a.type != 0x80]
	for i in d.perm(k):
		c = d.pick([base] + base.children + [None] * 3)
		if c is None or c.room(sim.size) < 160:
			c = sim.alloc(base=base.ref())
			base.children.append(c)
		c.attrs.insert(d.uni(0, len(c.attrs)), pieces[i])
	judge(sim, sim.build(), r)
	r.nontrivial(k, tuple(tuple(p.runs) for p in pieces))
	r.sample('%d pieces in %d records' % (k, 1 + len(base.children)))


def t_far(d, r):
	"""More than 65536 records."""
	sim = Sim(d, 1024)
	sim.far = True
	sim.history(8, 30)
	data = sim.build()
	judge(sim, data, r)
	if max(sim.recs) > 65535:
		r.nontrivial(sorted((n, x.seq, x.base) for n, x in sim.recs.items()))
	r.sample('records %s' % sorted(sim.recs)[-6:])


TESTS = [
	Test('far', t_far, 16, 400, shards=4, qsec=20),
	Test('history', t_history, 10000, shards=3, qsec=30),
	Test('damage', t_damage, 10000, shards=3, qsec=30),
	Test('split', t_split, 3750, shards=2, qsec=30),
]
