#!/usr/bin/env python3
"""mutate.py - small source changes to the library and the tools, run against the checks (development aid; no check uses this).

mutate.py cover OUT.json [SECONDS]                      which tests execute which lines
mutate.py run COVER.json OUT.jsonl [--files a,b] [--part K/N] [--seconds S] [--ids FILE]
"""
import ast, json, os, random, re, shutil, sys, tempfile, time, multiprocessing as mp, importlib, signal, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = ['dfir_ntfs/%s.py' % x for x in ('Attributes', 'BootSector', 'LogFile', 'MFT', 'MoveTable', 'PartitionTable', 'ShadowCopy', 'USN', 'WSL', 'addons/FAT', 'addons/exFAT')] + ['ntfs_parser', 'fat_parser', 'vsc_mount']
os.environ.update(PYTHONHASHSEED='0', TZ='UTC')
sys.dont_write_bytecode = True


def all_tests():
	for i in range(1, 33):
		m = importlib.import_module('checks.c%02d' % i)
		for j, t in enumerate(m.TESTS):
			yield 'C%02d' % i, j, t


def setup(repo):
	os.environ['VERIF_REPO'] = repo
	sys.path.insert(0, V)
	sys.path.insert(0, repo)
	os.chdir(V)


def cover_one(args):
	prop, j, seconds = args
	setup(REPO)
	mon = sys.monitoring
	mon.use_tool_id(3, 'cov')
	hit = set()

	def on_line(code, line):
		f = code.co_filename
		if f.startswith(REPO + '/'):
			hit.add((f[len(REPO) + 1:], line))
		return mon.DISABLE
	mon.register_callback(3, mon.events.LINE, on_line)
	from vlib import engine
	m = importlib.import_module('checks.' + prop.lower())
	t = m.TESTS[j]
	mon.set_events(3, mon.events.LINE)
	rec = engine.Recorder()
	try:
		engine.search(t.fn, 99, 10 ** 9, seconds, rec)
	except BaseException:
		traceback.print_exc()
	return prop, j, sorted(hit)


def cover(out, seconds):
	with mp.Pool(1) as p:
		tests = p.apply(list_tests)
	res = {}
	with mp.Pool(8, maxtasksperchild=1) as p:
		for prop, j, hit in p.imap_unordered(cover_one, [(a, b, seconds) for a, b in tests], 1):
			for f, l in hit:
				res.setdefault(f, {}).setdefault(str(l), []).append('%s:%d' % (prop, j))
	json.dump(res, open(out, 'w'))


def list_tests():
	setup(REPO)
	return [(p, j) for p, j, t in all_tests()]


CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='), ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is'), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '//'), ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '//'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.LShift: ('<<', '>>'), ast.RShift: ('>>', '<<')}


def mutants(path):
	src = open(os.path.join(REPO, path), encoding='utf-8').read()
	lines = src.split('\n')
	offs = [0]
	for l in lines:
		offs.append(offs[-1] + len(l.encode()) + 1)
	raw = src.encode()
	pos = lambda ln, col: offs[ln - 1] + col
	span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
	tree = ast.parse(src)
	out = []

	def add(node, a, b, new, kind):
		if raw[a:b] != new.encode():
			out.append(dict(file=path, line=node.lineno, a=a, b=b, new=new, kind=kind, old=raw[a:b].decode()))

	def between(x, y, op, new, node, kind):
		a, b = span(x)[1], span(y)[0]
		seg = raw[a:b].decode()
		k = seg.find(op)
		if k >= 0:
			a += len(seg[:k].encode())
			add(node, a, a + len(op), new, kind)
	doc = set()
	for n in ast.walk(tree):
		if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
			doc.add(id(n.body[0]))
		if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
			doc.add(id(n))
			doc.add(id(n.value))
	for n in ast.walk(tree):
		if id(n) in doc:
			continue
		if isinstance(n, ast.Compare):
			left = n.left
			for op, right in zip(n.ops, n.comparators):
				if type(op) in CMP:
					between(left, right, *CMP[type(op)], n, 'cmp')
				left = right
		elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
			if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))):
				between(n.left, n.right, *BIN[type(n.op)], n, 'bin')
		elif isinstance(n, ast.BoolOp):
			for x, y in zip(n.values, n.values[1:]):
				between(x, y, *(('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')), n, 'bool')
		elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
			a, b = span(n)
			add(n, a, span(n.operand)[0], '', 'not')
		elif isinstance(n, ast.Constant) and type(n.value) is int:
			a, b = span(n)
			add(n, a, b, str(n.value + 1), 'const+')
			if n.value > 0:
				add(n, a, b, str(n.value - 1), 'const-')
		elif isinstance(n, ast.Constant) and type(n.value) is bool:
			add(n, *span(n), str(not n.value), 'bool')
		elif isinstance(n, ast.Constant) and type(n.value) is str:
			v = n.value
			if v[:1] == '<' and len(v) <= 8:
				for i, c in enumerate(v):
					if c in 'bhlqBHLQ':
						add(n, *span(n), repr(v[:i] + c.swapcase() + v[i + 1:]), 'fmt')
			elif v == 'little':
				add(n, *span(n), "'big'", 'fmt')
		elif isinstance(n, (ast.If, ast.While)):
			add(n, *span(n.test), 'True', 'true')
			add(n, *span(n.test), 'False', 'false')
		elif isinstance(n, ast.Slice):
			if n.lower is not None:
				add(n, *span(n.lower), '', 'slice')
			if n.upper is not None:
				add(n, *span(n.upper), '', 'slice')
		if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and id(n) not in doc:
			if isinstance(n, ast.Expr) and isinstance(n.value, ast.Yield):
				pass
			add(n, *span(n), {ast.Continue: 'break', ast.Break: 'continue'}.get(type(n), 'pass'), 'stmt')
			if isinstance(n, (ast.Continue, ast.Break)):
				add(n, *span(n), 'pass', 'stmt')
		if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
			add(n, *span(n.value), 'None', 'return')
	tops = []
	for n in tree.body:
		if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
			tops.append((n.lineno, n.end_lineno, n.targets[0].id))
		elif isinstance(n, (ast.ClassDef, ast.FunctionDef)):
			for k in ast.walk(n):
				if isinstance(k, ast.FunctionDef):
					tops.append((k.lineno, k.lineno, k.name if k.name != '__init__' else n.name))
			if isinstance(n, ast.ClassDef):
				for k in n.body:
					if isinstance(k, ast.Assign):
						tops.append((k.lineno, k.end_lineno, k.targets[0].id))
	for m in out:
		m['top'] = next((t for a, b, t in tops if a <= m['line'] <= b), None)
		m['id'] = '%s:%d:%d:%s:%s' % (path, m['line'], m['a'], m['kind'], m['new'])
	return out


def child(m, tests, seconds, base, q):
	"""Runs in a forked process."""
	import resource
	resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
	os.setpgrp()
	devnull = os.open(os.devnull, os.O_WRONLY)
	os.dup2(devnull, 1)
	os.dup2(devnull, 2)
	try:
		setup(base)
		from vlib import engine
		engine.CASE_CPU_LIMIT = 10.0
		engine.shrink = lambda fn, c, *a, **k: (c, 'not shrunk')
		signal.signal(signal.SIGVTALRM, engine._on_alarm)
		for prop, j in tests:
			mod = importlib.import_module('checks.' + prop.lower())
			t = mod.TESTS[j]
			rec = engine.Recorder()
			seed = random.Random(repr((m['id'], prop, j))).getrandbits(30)
			fail = engine.search(t.fn, seed, t.quick, seconds, rec)
			if fail is not None:
				q.put(('killed', '%s %s' % (prop, t.name)))
				return
		q.put(('survived', len(tests)))
	except BaseException as e:
		q.put(('killed', 'import/harness: %s %s' % (type(e).__name__, str(e)[:100])))
	finally:
		q.close()
		q.join_thread()
		os._exit(0)


def one(args):
	m, tests, seconds = args
	base = tempfile.mkdtemp(prefix='mut_', dir='/dev/shm')
	try:
		for f in FILES:
			p = os.path.join(base, f)
			os.makedirs(os.path.dirname(p), exist_ok=True)
			shutil.copy(os.path.join(REPO, f), p)
		for f in ('dfir_ntfs/__init__.py', 'dfir_ntfs/addons/__init__.py'):
			shutil.copy(os.path.join(REPO, f), os.path.join(base, f))
		p = os.path.join(base, m['file'])
		raw = open(p, 'rb').read()
		new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
		try:
			compile(new, p, 'exec')
		except SyntaxError:
			return dict(m, result='invalid', by=None)
		open(p, 'wb').write(new)
		q = mp.Queue()
		pid = os.fork()
		if pid == 0:
			child(m, tests, seconds, base, q)
		t0 = time.time()
		limit = seconds * len(tests) + 60
		while True:
			x, st = os.waitpid(pid, os.WNOHANG)
			if x:
				break
			if time.time() - t0 > limit:
				os.kill(pid, 9)
				os.waitpid(pid, 0)
				return dict(m, result='killed', by='timeout')
			time.sleep(0.05)
		try:
			r = q.get(timeout=2)
		except Exception:
			r = ('killed', 'died')
		return dict(m, result=r[0], by=r[1], time=round(time.time() - t0, 1))
	finally:
		shutil.rmtree(base, ignore_errors=True)


def main():
	if sys.argv[1] == 'cover':
		cover(sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 10)
		return
	cov = json.load(open(sys.argv[2]))
	out = sys.argv[3]
	opt = dict(zip(sys.argv[4::2], sys.argv[5::2]))
	files = opt.get('--files', ','.join(FILES)).split(',')
	k, n = map(int, opt.get('--part', '0/1').split('/'))
	seconds = float(opt.get('--seconds', '3'))
	ids = set(open(opt['--ids']).read().split('\n')) if '--ids' in opt else None
	done = set()
	if os.path.exists(out):
		done = set(json.loads(l)['id'] for l in open(out))
	todo, un = [], []
	text = {g: open(os.path.join(REPO, g), encoding='utf-8').read().split('\n') for g in FILES}
	cap = int(opt.get('--cap', '25'))
	size = {}
	for c in cov.values():
		for l in c.values():
			for x in l:
				size[x] = size.get(x, 0) + 1
	for f in files:
		c = cov.get(f, {})
		for m in mutants(f):
			if m['id'] in done or ids is not None and m['id'] not in ids:
				continue
			if random.Random(m['id']).randrange(n) != k:
				continue
			x = c.get(str(m['line']), [])
			if m['top'] is not None:
				# Module level: the tests which execute the lines that use the name.
				x = set()
				for g, lines in text.items():
					for i, l in enumerate(lines):
						if re.search(r'\b%s\b' % re.escape(m['top']), l):
							x.update(cov.get(g, {}).get(str(i + 1), []))
			tests = [(x.split(':')[0], int(x.split(':')[1])) for x in x]
			if not tests:
				un.append(m)
				continue
			# The tests which execute the least code come first.
			tests.sort(key=lambda x: (x[0] in ('C16', 'C26', 'C27'), size['%s:%d' % x], x))
			todo.append((m, tests[:cap], seconds))
	random.Random(5).shuffle(todo)
	print(len(todo), 'mutants,', len(un), 'on lines which no test executes', flush=True)
	with open(out, 'a') as fo:
		for m in un:
			fo.write(json.dumps(dict(m, result='uncovered', by=None)) + '\n')
		fo.flush()
		with mp.Pool(8) as p:
			n = 0
			for r in p.imap_unordered(one, todo, 1):
				fo.write(json.dumps(r) + '\n')
				fo.flush()
				n += 1
				if n % 100 == 0:
					print(n, flush=True)


if __name__ == '__main__':
	main()
