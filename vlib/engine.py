"""Generated-input search engine: choice-sequence generation, shrinking, replay.

Every generated case is produced by a test function fn(d, r) which asks `d`
(a Draw) for bounded integers; the recorded list of integers *is* the case.
Shrinking edits that list (deletes chunks, lowers numbers) and re-runs the
function; the shortest failing list becomes the replay file.
"""
import os, random, time, signal, hashlib, traceback, json


class Violation(AssertionError):
	"""The property does not hold on this case."""


class Discard(Exception):
	"""The generated case is outside the property's domain."""


class Hang(KeyboardInterrupt):
	"""CPU budget for a single case exhausted (not an Exception on purpose)."""


class Draw(object):
	"""A source of choices. In generation mode they come from a PRNG, in replay
	mode from a list (missing values are the lower bound)."""

	def __init__(self, rnd=None, replay=None, prefix=None):
		self.rnd = rnd
		self.replay = replay
		self.prefix = prefix  # mutated corpus entry: replay first, then random
		self.log = []

	def raw(self, lo, hi, gen):
		i = len(self.log)
		if self.replay is not None:
			v = self.replay[i] if i < len(self.replay) else lo
			if v < lo or v > hi:
				v = lo + (v - lo) % (hi - lo + 1)
		elif self.prefix is not None and i < len(self.prefix):
			v = self.prefix[i]
			if v is None:
				v = gen()
			elif v < lo or v > hi:
				v = lo + (v - lo) % (hi - lo + 1)
		else:
			v = gen()
		self.log.append(v)
		return v

	def int(self, lo, hi):
		"""An integer in [lo, hi]; boundaries and small values are favoured for wide ranges."""
		if lo >= hi:
			return lo
		rnd = self.rnd
		def gen():
			span = hi - lo
			if span <= 16:
				return rnd.randint(lo, hi)
			k = rnd.randrange(8)
			if k == 0:
				return rnd.choice((lo, hi, lo + 1, hi - 1))
			if k <= 3:
				return lo + (rnd.getrandbits(rnd.randint(1, span.bit_length())) % (span + 1))
			return rnd.randint(lo, hi)
		return self.raw(lo, hi, gen)

	def uni(self, lo, hi):
		"""Uniform integer."""
		if lo >= hi:
			return lo
		return self.raw(lo, hi, lambda: self.rnd.randint(lo, hi))

	def chance(self, percent):
		return self.uni(0, 99) >= 100 - percent

	def bool(self):
		return self.uni(0, 1) == 1

	def pick(self, seq):
		return seq[self.uni(0, len(seq) - 1)]

	def pickw(self, pairs):
		"""Pick from (weight, value) pairs; the first is the simplest."""
		total = sum(w for w, _ in pairs)
		n = self.uni(0, total - 1)
		for w, v in pairs:
			if n < w:
				return v
			n -= w

	def sub(self):
		"""A source of choices which all follow from one choice (for cases with thousands of items)."""
		return Draw(random.Random(self.seed32()))

	def seed32(self):
		return self.raw(0, 0xFFFFFFFF, lambda: self.rnd.getrandbits(32))

	def blob(self, n):
		"""n bytes from one choice (seed 0 gives zero bytes, small seeds give constant bytes)."""
		if n <= 0:
			return b''
		s = self.raw(0, 0xFFFFFFFF, lambda: self.rnd.getrandbits(32) if self.rnd.randrange(8) else self.rnd.randrange(256))
		return expand(s, n)

	def blobnz(self, n):
		"""n bytes, none of which is zero, from one choice."""
		s = self.seed32()
		return bytes(1 + (x % 255) for x in random.Random(s).randbytes(n))

	def bytes(self, n):
		"""n individually chosen bytes (small n)."""
		return bytes(self.int(0, 255) for _ in range(n))

	def u(self, bits):
		return self.int(0, (1 << bits) - 1)

	def perm(self, n):
		"""A permutation of range(n) (the identity is the simplest)."""
		s = self.raw(0, 0xFFFFFFFF, lambda: self.rnd.getrandbits(32) if self.rnd.randrange(4) else 0)
		l = list(range(n))
		if s:
			random.Random(s).shuffle(l)
		return l

	def sample(self, n, k):
		"""k distinct numbers below n, sorted."""
		s = self.seed32()
		return sorted(random.Random(s).sample(range(n), k))

	NAME_ALPHABETS = (
		'abcdefghijklmnopqrstuvwxyz', 'ABCxyz0189 ._-$~!', '\u0416\u0434\u00e9\u00df\u4e2d\u6587\u3042', 'a\U0001f600\U0001f4a9b\U00010348z', '\ufffd\u2028\u00a0\u0301', 'A')

	def name(self, lo=1, hi=20, alphabets=None):
		"""A text whose UTF-16 length is between lo and hi code units."""
		n = self.int(lo, hi)
		alpha = self.pick(alphabets or self.NAME_ALPHABETS)
		s = ''
		left = n
		while left > 0:
			c = alpha[self.uni(0, len(alpha) - 1)]
			w = 2 if ord(c) > 0xFFFF else 1
			if w > left:
				c, w = 'q', 1
			s += c
			left -= w
		return s

	def odd_name(self, lo=1, hi=20):
		"""A name which may also hold lone surrogates (characters that cannot be decoded) or unusual characters."""
		return self.name(lo, hi, self.NAME_ALPHABETS + ('a\ud800\udc41yz\udfff', 'ab:*?"<>|\\\x01\x1f\x7f'))


def expand(s, n):
	if s < 256:
		return bytes([s]) * n
	return random.Random(s).randbytes(n)


class Recorder(object):
	def __init__(self):
		self.evaluations = 0
		self.discards = 0
		self.distinct = set()
		self.labels = {}
		self.samples = []
		self._case = None

	def begin(self):
		self._case = {'key': None, 'sample': None, 'labels': []}

	def nontrivial(self, *key):
		"""Declare the current case non-trivial; the key identifies it."""
		self._case['key'] = hashlib.blake2b(repr(key).encode('utf-8', 'replace'), digest_size=8).digest()

	def sample(self, text):
		self._case['sample'] = text

	def label(self, name, cond=True):
		if cond:
			self._case['labels'].append(name)

	def commit(self):
		c = self._case
		self.evaluations += 1
		for l in c['labels']:
			self.labels[l] = self.labels.get(l, 0) + 1
		if c['key'] is not None:
			if c['key'] not in self.distinct:
				self.distinct.add(c['key'])
				if len(self.samples) < 3 and c['sample'] is not None:
					self.samples.append(str(c['sample'])[:400])


CASE_CPU_LIMIT = 90.0


def _on_alarm(signum, frame):
	raise Hang('a single case used more than %d s of CPU time' % CASE_CPU_LIMIT)


def run_case(fn, d, r):
	"""Run one case. Returns None when the property held, otherwise a message."""
	r.begin()
	signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
	try:
		fn(d, r)
		return None
	except Discard:
		raise
	except Violation as e:
		return str(e) or 'violation'
	except Hang:
		raise
	except MemoryError:
		return 'MemoryError: memory limit for one case exhausted'
	except RecursionError as e:
		return 'RecursionError: %s' % e
	except Exception as e:
		tb = traceback.extract_tb(e.__traceback__)
		where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
		return 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300], where)
	finally:
		signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shrink(fn, choices, seconds=60, max_runs=4000):
	"""Minimise a failing list of choices."""
	start = time.time()
	runs = [0]
	dummy = Recorder()

	def fails(c):
		if runs[0] >= max_runs or time.time() - start > seconds:
			return None
		runs[0] += 1
		d = Draw(replay=c)
		try:
			msg = run_case(fn, d, dummy)
		except Discard:
			return None
		if msg is None:
			return None
		return (d.log, msg)

	best = list(choices)
	res = fails(best)
	if res is None:
		return best, None
	best, msg = list(res[0]), res[1]
	improved = True
	while improved and time.time() - start < seconds and runs[0] < max_runs:
		improved = False
		# Truncate.
		n = len(best)
		size = n // 2
		while size >= 1:
			i = 0
			while i < len(best):
				cand = best[:i] + best[i + size:]
				res = fails(cand)
				if res is not None and (len(res[0]), res[0]) < (len(best), best):
					best, msg = list(res[0]), res[1]
					improved = True
				else:
					i += size
				if time.time() - start > seconds:
					break
			size //= 2
		# Lower numbers.
		i = 0
		while i < len(best):
			v = best[i]
			if v != 0:
				for cand_v in (0, 1, v // 2, v - 1):
					if cand_v == v or cand_v < 0 or abs(cand_v) >= abs(v):
						continue
					cand = best[:i] + [cand_v] + best[i + 1:]
					res = fails(cand)
					if res is not None and (len(res[0]), res[0]) < (len(best), best):
						best, msg = list(res[0]), res[1]
						improved = True
						break
			i += 1
			if time.time() - start > seconds:
				break
	return best, msg


def mix(*parts):
	h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
	return int.from_bytes(h, 'little')


def search(fn, seed, count, seconds, rec, progress=None):
	"""Run up to `count` cases within `seconds`. Returns None or a failure dict."""
	signal.signal(signal.SIGVTALRM, _on_alarm)
	start = time.time()
	for k in range(count):
		if time.time() - start > seconds:
			break
		rnd = random.Random(mix(seed, k))
		d = Draw(rnd)
		try:
			msg = run_case(fn, d, rec)
		except Discard:
			rec.discards += 1
			continue
		except Hang as e:
			return {'choices': d.log, 'message': 'does not terminate: %s' % e, 'case': k}
		if msg is None:
			rec.commit()
			continue
		first = msg
		try:
			choices, msg2 = shrink(fn, d.log)
		except Hang:
			choices, msg2 = d.log, None
		return {'choices': choices, 'message': msg2 or first, 'first_message': first, 'case': k}
	return None


def check(cond, *fmt):
	if not cond:
		if len(fmt) == 1:
			raise Violation(str(fmt[0]))
		raise Violation(fmt[0] % fmt[1:] if fmt else 'check failed')


def short(v, n=120):
	s = repr(v)
	if len(s) > n:
		s = s[:n] + '...(%d)' % len(s)
	return s


def eq(got, want, what):
	if got != want:
		raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


def raises(exc, fn, what, *a, **k):
	"""fn must raise one of exc."""
	try:
		v = fn(*a, **k)
	except exc:
		return
	raise Violation('%s: accepted (got %s), expected a rejection' % (what, short(v)))
