"""C16: evidence is never modified, parsing is repeatable."""
import hashlib
import io
import os
import sys
from checks import Test, c20, c27, c31
from checks.c13 import gen_journal
from vlib.engine import *
from vlib import cli, exfat, fattree, ntfs, report, usn, vss
from vlib import sources as S
from vlib.mftsim import Sim

TECHNIQUE = 'metamorphic property testing: every parser is run over generated inputs through a recording file object; a dump of everything it reports must not depend on repetition, on abandoned iterators or on other users of the file position'
RULE = ('Parser tests: an input of the named kind is generated and dumped once through a recording file object (any write, truncation or close is a violation); then it is dumped again by the same parser, by a fresh parser, '
	'after an abandoned dump, with the harness moving the file position between items, and by two parsers sharing one file object under a generated schedule: all dumps must be equal. Tool tests: a command runs on files in a scratch folder; '
	'an audit hook and a comparison of contents, size, mode and mtime show that only the named output was created or changed. Non-trivial: the dump has more than 8 items (parsers) or the command wrote a report (tools). Distinct by dump or input.')


def drain(it, mess=None):
	out = []
	for x in it:
		out.append(x)
		if mess is not None:
			mess()
	return out


def same(a, b, what):
	for i, (x, y) in enumerate(zip(a, b)):
		if x != y:
			x, y = difference(x, y)
			raise Violation('%s: item %d of %d differs: %s, first time %s' % (what, i, len(b), short(x, 300), short(y, 300)))
	eq(len(a), len(b), '%s: number of items' % what)


def difference(x, y):
	while isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
		for p, q in zip(x, y):
			if p != q:
				x, y = p, q
				break
		else:
			break
	return repr(x), repr(y)


def t_kind(kind):
	def fn(d, r):
		s = S.KINDS[kind](d)
		guards = [S.Guard(b) for b in s.files]
		all_guards = list(guards)

		def fresh():
			g = [S.Guard(b) for b in s.files]
			all_guards.extend(g)
			return g

		def mess():
			k = d.uni(0, 3)
			for g in guards:
				if k == 0:
					g.seek(d.uni(0, g.size + 10))
				elif k == 1:
					g.seek(0, 2)
				elif k == 2:
					g.read(d.uni(1, 5000))
		p = s.open(*guards)
		want = drain(s.items(p))
		how = d.perm(7)[:d.uni(2, 4)]
		for k in how:
			if k == 0:
				same(drain(s.items(p)), want, '%s, same parser again' % kind)
			elif k == 1:
				same(drain(s.items(s.open(*fresh()))), want, '%s, fresh parser and file object' % kind)
			elif k == 2:
				mess()
				q = s.open(*guards)
				same(drain(s.items(q), mess), want, '%s, fresh parser, file position changed between items' % kind)
			elif k == 6:
				# Ordinary (writable) in-memory files.
				if max(b.size for b in s.files) > 1 << 24:
					continue
				datas = [b.pread(0, b.size).ljust(b.size, b'\x00') for b in s.files]
				plain = [io.BytesIO(x) for x in datas]
				q = s.open(*plain)
				same(drain(s.items(q)), want, '%s, fresh parser and in-memory file' % kind)
				for x, y in zip(plain, datas):
					check(not x.closed and x.getvalue() == y, '%s: the in-memory source was changed', kind)
			elif k == 3:
				mess()
				same(drain(s.items(p), mess), want, '%s, same parser, file position changed between items' % kind)
			elif k == 4:
				# An abandoned iterator.
				q = p if d.bool() else s.open(*guards)
				it = s.items(q)
				for _ in range(d.uni(0, len(want))):
					next(it, None)
				it.close()
				same(drain(s.items(q if d.bool() else p)), want, '%s, after an abandoned iteration' % kind)
			else:
				# Two users of one file object.
				a = p
				b = p if s.concurrent and d.bool() else s.open(*guards)
				its = [s.items(a), s.items(b)]
				outs = [[], []]
				live = [0, 1]
				burst = d.pick((1, 3, 50))
				while live:
					w = d.pick(live)
					for _ in range(d.uni(1, burst)):
						try:
							outs[w].append(next(its[w]))
						except StopIteration:
							live.remove(w)
							break
				for o in outs:
					same(o, want, '%s, two %s over one file object' % (kind, 'iterations of one parser' if a is b else 'parsers'))
			r.label('use-%d' % k)
		for g in all_guards:
			check(not g.changes, '%s: the source was changed: %s', kind, g.changes[:3])
		if len(want) > 8 or kind in ('gpt', 'mbr') and len(want) > 1:
			r.nontrivial(hash(tuple(want)), how)
		r.sample('%s: %d items, uses %s, last %s' % (kind, len(want), how, repr(want[-1])[:150] if want else ''))
	fn.__name__ = 't_' + kind
	return fn


# --- tools -------------------------------------------------------------------------

WATCH = {'on': False, 'events': []}
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def hook(event, args):
	if not WATCH['on']:
		return
	if event == 'open':
		path, mode, flags = args
		if isinstance(flags, int) and flags & WRITE or isinstance(mode, str) and set(mode) & set('wax+'):
			WATCH['events'].append(('open', str(path)))
	elif event in ('os.remove', 'os.rename', 'os.truncate', 'os.rmdir', 'os.link', 'os.symlink', 'os.chmod', 'os.chown', 'os.utime', 'os.mkdir', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'subprocess.Popen', 'os.system', 'os.exec', 'os.fork', 'socket.connect'):
		WATCH['events'].append((event, str(args[0]) if args else ''))


INSTALLED = []


def state(folder):
	out = {}
	for n in sorted(os.listdir(folder)):
		p = os.path.join(folder, n)
		st = os.lstat(p)
		with open(p, 'rb') as f:
			h = hashlib.blake2b(f.read(), digest_size=16).hexdigest()
		out[n] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, h)
	return out


def watched(tool, folder, args, outs, cwd=None):
	"""Run a tool; only the files named in outs may appear or change."""
	if not INSTALLED:
		sys.addaudithook(hook)
		INSTALLED.append(1)
	before = state(folder)
	here = os.getcwd()
	WATCH['events'] = []
	os.chdir(folder)
	WATCH['on'] = True
	try:
		res = cli.run(tool, *args)
	finally:
		WATCH['on'] = False
		os.chdir(here)
	after = state(folder)
	what = '%s %s' % (tool, ' '.join(os.path.basename(str(a)) for a in args[:6]))
	for ev, path in WATCH['events']:
		full = os.path.normpath(os.path.join(folder, path))
		if ev == 'open' and full in ('/dev/null',):
			continue
		check(ev == 'open' and full in [os.path.join(folder, o) for o in outs], '%s: %s of %s', what, ev, full)
	for n in before:
		if n not in outs:
			check(n in after, '%s: %s was removed', what, n)
			eq(after[n], before[n], '%s: mode, size, mtime, inode and contents of %s' % (what, n))
	for n in after:
		check(n in before or n in outs, '%s: %s appeared', what, n)
	return res, after


def put(folder, name, data):
	p = os.path.join(folder, name)
	if isinstance(data, bytes):
		with open(p, 'wb') as f:
			f.write(data)
	else:
		data.tofile(p)
	os.utime(p, ns=(10 ** 18, 10 ** 18 + 123456789))
	return p


def evidence(d, mode):
	"""(inputs, extra arguments) for a mode of the NTFS tool."""
	if mode == '--mem':
		p, a = c31.layout(d)
		return [c31.plant(d, [c31.fcb(d, p, a)[0] for _ in range(d.int(5, 40))], False)[0]], []
	if mode == '--move':
		return [S.gen_move(d).files[0].data], []
	if mode in ('--all-mft', '--indx'):
		if mode == '--all-mft' and d.bool():
			h = c27.TableHistory(d)
			h.snapshot(1, True)
			h.change()
			f = h.image().volume()
			return [f.read()], [h.tv.vol.voff]
		s = S.gen_volume(d)
		data = s.files[0].data
		return [data], [s.hot[0][0]]
	sim = Sim(d)
	sim.history(2, 10)
	report.enrich(sim, d)
	mft = sim.build()
	if mode == '--mft':
		return [mft], []
	if mode == '--usn':
		return [mft, gen_journal(d, d.int(0, 8))[0]], []
	return [mft, c27.log_history(d, sim, d.bool())[0]], []


MODES = ('--mft', '--usn', '--log', '--all-mft', '--indx', '--mem', '--move')


def t_ntfs(d, r):
	mode = d.pick(MODES)
	inputs, extra = evidence(d, mode)
	damaged = False
	if d.chance(40):
		# Damaged evidence: the tool may fail, but must not change anything.
		k = d.uni(0, len(inputs) - 1)
		b = bytearray(inputs[k])
		if b:
			if d.bool():
				b = b[:d.uni(0, len(b))]
			else:
				for _ in range(d.uni(1, 20)):
					o = d.uni(0, len(b) - 1)
					b[o] ^= d.int(1, 255)
			inputs[k] = bytes(b)
			damaged = True
	with cli.scratch() as t:
		paths = [put(t, 'evidence%d' % k, x) for k, x in enumerate(inputs)]
		put(t, 'bystander', d.blob(100))
		if d.bool():
			put(t, 'out', b'x' * 1000)
		if d.bool():
			for p in paths:
				os.chmod(p, 0o444)
		args = [mode] + paths + extra + [os.path.join(t, 'out')]
		outs = ['out']
		bad = None
		if d.chance(20):
			bad = d.uni(0, 4)
			if bad == 0:
				args = args[:d.uni(0, len(args) - 1)]
			elif bad == 1:
				args.append('more')
			elif bad == 2:
				args[0] = d.pick(('--nope', '-m', '', '--MFT', 'mft'))
			elif bad == 3:
				args[1] = os.path.join(t, 'absent')
			else:
				args = args[::-1]
			outs = ['out'] if bad in (3,) else []
		first = None
		for again in range(1 if bad is not None else 2):
			res, after = watched('ntfs_parser', t, args, outs)
			got = (res.out, res.code, type(res.err).__name__, after.get('out', (0,) * 5)[4])
			if first is not None:
				eq(got, first, '%s: output, status, error and report of the second run' % mode)
			first = got
	r.label(mode)
	r.label('damaged', damaged)
	r.label('wrong arguments', bad is not None)
	if bad is None:
		r.nontrivial(hash(tuple(inputs)))
	r.sample('%s: %s' % (mode, first))


def t_fat(d, r):
	if d.bool():
		t = fattree.Tree(d, d.pick((12, 16, 32)))
		img, off = t.v.image(), t.v.offset
	else:
		t = exfat.Tree(d)
		img, off = t.image(), t.offset
	if img.size > 1 << 24:
		raise Discard()
	for _ in range(d.uni(0, 4)):
		o, b = d.pick(img.parts)
		img.flip(o + d.uni(0, len(b) - 1), d.int(1, 255))
	with cli.scratch() as f:
		p = put(f, 'evidence', img)
		put(f, 'bystander', d.blob(100))
		if d.bool():
			put(f, 'out', b'x' * 1000)
		args = [p, str(off), os.path.join(f, 'out')]
		outs = ['out']
		bad = d.chance(15)
		if bad:
			args = d.pick((args[:2], args[:1], [], args + ['x']))
			outs = []
		first = None
		for again in range(2):
			res, after = watched('fat_parser', f, args, outs)
			got = (res.out, res.code, type(res.err).__name__, after.get('out', (0,) * 5)[4])
			if first is not None:
				eq(got, first, 'fat_parser: output, status, error and report of the second run')
			first = got
	r.label('wrong arguments', bad)
	if not bad:
		r.nontrivial(d.log[:40])
	r.sample(str(first))


TESTS = [Test(k, t_kind(k), q, q * 40) for k, q in (('mft', 500), ('volume', 300), ('usn', 400), ('log', 600), ('vss', 600), ('fat', 300), ('exfat', 250), ('gpt', 300), ('mbr', 500), ('move', 300), ('mem', 300))]
TESTS += [Test('ntfs-tool', t_ntfs, 250, 8000), Test('fat-tool', t_fat, 120, 3000)]
