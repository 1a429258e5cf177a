#!/usr/bin/env python3
"""seedtool.py gen|verify|catch [ids...] - planted bugs (development aid; no check uses this).

gen:    write seeded/<id>/ from tools/seeds/*.py against /repo HEAD
verify: in a scratch copy: the patch applies, the suite is unchanged, the demo passes without and fails with it
catch:  run the property's quick check against the patched scratch copy
"""
import re
import sys, os, json, subprocess, shutil, tempfile, glob, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CACHE = '/tmp/seedcache'
os.makedirs(CACHE, exist_ok=True)


def load():
	out = {}
	for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
		ns = {}
		exec(compile(open(f).read(), f, 'exec'), ns)
		for s in ns['SEEDS']:
			assert s['id'] not in out, s['id']
			out[s['id']] = s
	return out


def sh(cmd, cwd=None, env=None, timeout=1200):
	p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
	return p.returncode, p.stdout.decode('utf-8', 'replace')


def scratch():
	t = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
	c = os.path.join(t, 'repo')
	rc, o = sh(['git', 'clone', '-q', REPO, c])
	assert rc == 0, o
	return t, c


def gen(s):
	t, c = scratch()
	try:
		for e in s['edits']:
			path, old, new = e[:3]
			total, which = e[3] if len(e) > 3 else (1, 0)
			p = os.path.join(c, path)
			data = open(p).read()
			assert data.count(old) == total, (s['id'], path, data.count(old), old)
			parts = data.split(old)
			open(p, 'w').write(old.join(parts[:which + 1]) + new + old.join(parts[which + 1:]))
		rc, diff = sh(['git', 'diff'], cwd=c)
		assert diff
		d = os.path.join(V, 'seeded', s['id'])
		shutil.rmtree(d, ignore_errors=True)
		os.makedirs(d)
		open(os.path.join(d, 'patch.diff'), 'w').write(diff)
		with open(os.path.join(d, 'demo.sh'), 'w') as f:
			f.write('#!/bin/bash\n# Run with cwd = the source tree.\nexport PYTHONPATH="$PWD:$(cd "$(dirname "$0")" && pwd)" PYTHONDONTWRITEBYTECODE=1 TZ=UTC\nexec python3 "$(dirname "$0")/demo.py"\n')
		os.chmod(os.path.join(d, 'demo.sh'), 0o755)
		if 'demo' not in s:
			gen_replay(s, d, c)
		else:
			open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].strip('\n') + '\n')
		if s.get('vlib'):
			os.makedirs(os.path.join(d, 'vlib'))
			open(os.path.join(d, 'vlib', '__init__.py'), 'w').close()
			for m in s['vlib']:
				shutil.copy(os.path.join(V, 'vlib', m + '.py'), os.path.join(d, 'vlib', m + '.py'))
		json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
	finally:
		shutil.rmtree(t)


def gen_replay(s, d, c):
	"""The demonstration is one minimal failing case (a fixed list of choices) with a copy of the oracle that judged it."""
	rc, o = sh(['python3', 'run.py', s['property']], cwd=V, env=dict(os.environ, VERIF_REPO=c, VERIF_SEED=str(s.get('seed', 1))))
	m = re.search(r'^VIOLATION property=\S+ replay=(\S+)', o, re.M)
	assert rc == 1 and m, (s['id'], 'no failing case found', o[-300:])
	rp = json.load(open(m.group(1)))
	rp.pop('how', None)
	json.dump(rp, open(os.path.join(d, 'case.json'), 'w'), indent=1)
	shutil.copy(os.path.join(V, 'run.py'), d)
	shutil.copytree(os.path.join(V, 'vlib'), os.path.join(d, 'vlib'), ignore=shutil.ignore_patterns('__pycache__'))
	os.makedirs(os.path.join(d, 'checks'))
	todo = ['__init__', s['property'].lower()]
	if s['property'] == 'C27':
		todo += ['c06', 'c07', 'c11', 'c20', 'c30']  # Used by vlib/report.py.
	while todo:
		n = todo.pop()
		text = open(os.path.join(V, 'checks', n + '.py')).read()
		open(os.path.join(d, 'checks', n + '.py'), 'w').write(text)
		for x in re.findall(r'c\d\d', ' '.join(re.findall(r'^\s*(?:from|import) checks.*', text, re.M))):
			if not os.path.exists(os.path.join(d, 'checks', x + '.py')):
				todo.append(x)
	with open(os.path.join(d, 'demo.sh'), 'w') as f:
		f.write('#!/bin/bash\n# Run with cwd = the source tree. Judges the single case in case.json.\nexport VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC\ncd "$(dirname "$0")" && exec python3 run.py %s --replay case.json\n' % s['property'])


def patched(sid):
	t, c = scratch()
	rc, o = sh(['git', 'apply', os.path.join(V, 'seeded', sid, 'patch.diff')], cwd=c)
	assert rc == 0, (sid, o)
	return t, c


def verify(sid):
	t, c = scratch()
	d = os.path.join(V, 'seeded', sid)
	try:
		rc, o = sh(['bash', os.path.join(d, 'demo.sh')], cwd=c, timeout=300)
		if rc != 0:
			return 'demo fails on the unchanged tree: ' + o[-600:]
		rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=c)
		if rc != 0:
			return 'patch does not apply: ' + o
		rc, o = sh(['bash', os.path.join(d, 'demo.sh')], cwd=c, timeout=300)
		if rc == 0:
			return 'demo passes with the patch'
		key = hashlib.sha1(open(os.path.join(d, 'patch.diff'), 'rb').read()).hexdigest()
		ck = os.path.join(CACHE, key)
		if not os.path.exists(ck):
			env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', PYTHONPATH=c)
			rc, o = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--tb=no', '--timeout=300', '-rA', 'test_cases.py'], cwd=c, env=env)
			passed = set(l.split('::')[1].split()[0] for l in o.splitlines() if l.startswith('PASSED '))
			want = set(x.split('::')[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])
			if want - passed:
				return 'tests fail: %s' % sorted(want - passed)[:5]
			open(ck, 'w').close()
		return None
	finally:
		shutil.rmtree(t)


def catch(sid):
	t, c = patched(sid)
	try:
		prop = json.load(open(os.path.join(V, 'seeded', sid, 'meta.json')))['property']
		env = dict(os.environ, VERIF_REPO=c, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
		rc, o = sh(['python3', 'run.py', prop], cwd=V, env=env)
		return rc, '\n'.join(x for x in o.splitlines() if not x.startswith('KNOWN-FINDING'))[-400:]
	finally:
		shutil.rmtree(t)


def main():
	seeds = load()
	cmd, ids = sys.argv[1], sys.argv[2:] or sorted(seeds)
	ids = [i for i in sorted(seeds) if any(i == x or (x.endswith('*') and i.startswith(x[:-1])) for x in ids)]
	for i in ids:
		if cmd in ('gen', 'all'):
			try:
				gen(seeds[i])
			except AssertionError as e:
				print(i, 'GEN FAILED', e)
				continue
			if cmd == 'gen':
				print(i, 'written')
		if cmd in ('verify', 'all'):
			r = verify(i)
			print(i, 'ok' if r is None else 'BAD: ' + r, flush=True)
		if cmd in ('catch', 'all'):
			rc, o = catch(i)
			print(i, {0: 'MISSED', 1: 'caught', 3: 'ERROR'}.get(rc, rc), '|', o.replace('\n', ' | ')[:300], flush=True)


main()
