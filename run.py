#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--replay FILE] [--test NAME] [--seconds N]

Decides one property by generated-input search against /repo's working tree.
"""
import sys, os, json, time, importlib, argparse, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1' or os.environ.get('TZ') != 'UTC':
	os.environ['PYTHONHASHSEED'] = '0'
	os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
	os.environ['TZ'] = 'UTC'
	os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

import multiprocessing as mp
from vlib import engine, findings


def worker(prop, test_index, shard, seed, count, seconds, q):
	try:
		import resource
		lim = 3 << 30
		resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
		resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
		mod = importlib.import_module('checks.' + prop.lower())
		t = mod.TESTS[test_index]
		rec = engine.Recorder()
		findings.reset()
		fail = engine.search(t.fn, engine.mix(seed, prop, t.name, shard), count, seconds, rec)
		if fail is not None:
			fail['test'] = t.name
			fail['shard'] = shard
		q.put(('done', test_index, shard, rec.evaluations, rec.discards, list(rec.distinct), rec.labels, rec.samples, fail, findings.seen()))
	except BaseException as e:
		import traceback
		q.put(('error', test_index, shard, traceback.format_exc()))


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('property')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
	ap.add_argument('--replay')
	ap.add_argument('--test')
	ap.add_argument('--seconds', type=float)
	ap.add_argument('--jobs', type=int, default=8)
	ap.add_argument('--scale', type=float, default=1.0)
	ap.add_argument('--selfcheck', action='store_true')
	if '--selfcheck' in sys.argv:
		import glob
		for f in sorted(glob.glob(os.path.join(VERIF, 'checks', 'c*.py'))):
			with open(f) as x:
				compile(x.read(), f, 'exec')
		print('ok')
		return 0
	args = ap.parse_args()
	prop = args.property.upper()
	tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
	try:
		seed = int(os.environ.get('VERIF_SEED', '1'))
	except ValueError:
		seed = 1

	os.chdir(VERIF)
	import dfir_ntfs
	where = os.path.dirname(os.path.dirname(os.path.abspath(dfir_ntfs.__file__)))
	if where != os.path.abspath(REPO):
		print('harness error: dfir_ntfs imported from', where)
		return 3
	mod = importlib.import_module('checks.' + prop.lower())

	if args.replay:
		import signal
		signal.signal(signal.SIGVTALRM, engine._on_alarm)
		with open(args.replay) as f:
			rp = json.load(f)
		t = [x for x in mod.TESTS if x.name == rp['test']][0]
		d = engine.Draw(replay=rp['choices'])
		rec = engine.Recorder()
		try:
			msg = engine.run_case(t.fn, d, rec)
		except engine.Hang as e:
			msg = str(e)
		print('replay of', t.name, '->', 'holds' if msg is None else msg)
		if msg is not None:
			print('VIOLATION property=%s replay=%s' % (prop, args.replay))
			return 1
		return 0

	start = time.time()
	q = mp.Queue()
	tasks = []
	for i, t in enumerate(mod.TESTS):
		if args.test and t.name != args.test:
			continue
		n = int((t.quick if tier == 'quick' else t.thorough) * args.scale)
		shards = t.shards if tier == 'quick' else max(8, t.shards)
		shards = max(1, min(shards, n))
		secs = args.seconds or (t.qsec if tier == 'quick' else t.tsec)
		for s in range(shards):
			tasks.append((i, s, (n + shards - 1) // shards, secs))
	pending = list(tasks)
	running = {}
	evaluations = discards = 0
	distinct = set()
	labels = {}
	samples = []
	per_test = {}
	failure = None
	error = None
	known = {}
	nproc = max(1, min(args.jobs, os.cpu_count() or 1))
	# Longest tasks first.
	pending.sort(key=lambda x: -x[3])
	while (pending or running) and failure is None and error is None:
		while pending and len(running) < nproc:
			i, s, n, secs = pending.pop(0)
			p = mp.Process(target=worker, args=(prop, i, s, seed, n, secs, q), daemon=True)
			p.start()
			running[(i, s)] = p
		try:
			m = q.get(timeout=1.0)
		except Exception:
			dead = [k for k, p in running.items() if not p.is_alive()]
			if dead:
				time.sleep(1.0)
				if q.empty():
					k = dead[0]
					# The worker died without an answer (killed by the memory guard or a fatal signal).
					error = 'worker %r ended with code %r' % (k, running[k].exitcode)
			continue
		if m[0] == 'error':
			error = m[3]
			break
		_, i, s, ev, di, dist, lab, smp, fail, kf = m
		p = running.pop((i, s))
		p.join(5)
		evaluations += ev
		discards += di
		distinct.update((i, x) for x in dist)
		name = mod.TESTS[i].name
		pt = per_test.setdefault(name, {'evaluations': 0, 'distinct_nontrivial': 0, 'discarded': 0, 'labels': {}})
		pt['evaluations'] += ev
		pt['discarded'] += di
		pt['distinct_nontrivial'] = sum(1 for x in distinct if x[0] == i)
		for k, v in lab.items():
			pt['labels'][k] = pt['labels'].get(k, 0) + v
		for x in smp[:2]:
			if len([y for y in samples if y['test'] == name]) < 2:
				samples.append({'test': name, 'case': x})
		for k, v in kf.items():
			known[k] = known.get(k, 0) + v
		if fail is not None:
			failure = fail
	for p in running.values():
		p.terminate()
	for p in running.values():
		p.join(5)
		if p.is_alive():
			p.kill()

	if error is not None:
		print('harness error:', error)
		return 3

	violations = []
	if failure is not None:
		os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
		path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (prop, failure['test'], seed))
		with open(path, 'w') as f:
			json.dump({'property': prop, 'test': failure['test'], 'choices': failure['choices'], 'message': failure['message'], 'how': 'python3 run.py %s --replay %s' % (prop, path)}, f, indent=1)
		violations.append({'test': failure['test'], 'message': failure['message'], 'replay': path})

	evidence = {
		'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
		'coverage': {
			'evaluations': evaluations,
			'distinct_nontrivial': len(distinct),
			'rule': mod.RULE,
			'samples': samples,
			'discarded': discards,
			'per_test': per_test,
		},
		'assumptions': getattr(mod, 'ASSUMPTIONS', []),
		'violations': violations,
		'wall_s': round(time.time() - start, 2),
	}
	os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
	tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
	with open(tmp, 'w') as f:
		json.dump(evidence, f, indent=1)
	os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))

	for k in findings.listed(prop):
		print('KNOWN-FINDING: property=%s %s' % (prop, findings.text(k)))
	if failure is not None:
		print('%s: %s' % (failure['test'], failure['message']))
		print('VIOLATION property=%s replay=%s' % (prop, violations[0]['replay']))
		return 1
	print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (prop, evaluations, len(distinct), evidence['wall_s']))
	return 0


if __name__ == '__main__':
	sys.exit(main())
