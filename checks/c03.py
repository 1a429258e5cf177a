"""C03: run lists."""
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import MFT

RULE = ('round trip: encode generated runs (any field width, signed deltas, sparse runs) and decode; differential: decode generated byte strings, valid or mutated, and compare '
	'with an independent reference decoder (same runs or both reject). Non-trivial: two or more runs, or a rejected string. Distinct by bytes.')


class Bad(Exception):
	pass


def reference(b):
	"""Independent decoder. Raises Bad for lists that must be refused; returns (runs, unspecified)."""
	runs = []
	lcn = 0
	i = 0
	neg = False
	while True:
		if i >= len(b):
			raise Bad('unterminated')
		h = b[i]
		if h == 0:
			return runs, neg
		lw, ow = h & 0xF, h >> 4
		if not 1 <= lw <= 8 or ow > 8:
			raise Bad('width')
		if i + 1 + lw + ow > len(b):
			raise Bad('truncated')
		n = 0
		for k in range(lw):
			n |= b[i + 1 + k] << (8 * k)
		if n >> (8 * lw - 1):
			n -= 1 << (8 * lw)
		if n <= 0:
			raise Bad('length')
		if ow == 0:
			runs.append((None, n))
		else:
			o = 0
			for k in range(ow):
				o |= b[i + 1 + lw + k] << (8 * k)
			if o >> (8 * ow - 1):
				o -= 1 << (8 * ow)
			lcn += o
			if lcn == 0 and runs:
				raise Bad('cluster zero')
			if lcn < 0:
				neg = True
			runs.append((lcn, n))
		i += 1 + lw + ow


def decode(b, d):
	data = bytes(b) if d.bool() else bytearray(b)
	return MFT.DecodeMappingPairs(data)


def t_roundtrip(d, r):
	runs = ntfs.gen_runs(d, d.int(0, 20), first_zero=True)
	enc = ntfs.enc_runs(runs, d)
	tail = d.blob(d.uni(0, 9))
	got = [tuple(x) for x in decode(enc + tail, d)]
	eq(got, runs, 'runs')
	if len(runs) >= 2:
		r.nontrivial(enc)
	r.label('sparse', any(l is None for l, _ in runs))
	r.label('negative-delta', any(runs[i][0] is not None and runs[i + 1][0] is not None and runs[i + 1][0] < runs[i][0] for i in range(len(runs) - 1)))
	r.sample('%s <- %s' % (runs[:3], enc[:24].hex()))


def t_truncation(d, r):
	runs = ntfs.gen_runs(d, d.int(1, 6))
	enc = ntfs.enc_runs(runs, d)
	for cut in range(len(enc)):
		raises(MFT.MappingPairsException, MFT.DecodeMappingPairs, 'run list %s cut to %d bytes' % (enc.hex(), cut), enc[:cut])
	r.nontrivial(enc)
	r.sample('every truncation of ' + enc[:40].hex())


def t_differential(d, r):
	k = d.uni(0, 3)
	if k == 0:
		b = bytearray(d.blob(d.int(0, 40)))
	elif k == 1:
		b = bytearray()
		for _ in range(d.int(0, 6)):
			lw, ow = d.int(0, 9), d.int(0, 9)
			b += bytes([lw | (ow << 4)]) + d.blob(lw) + d.blob(ow)
		b += b'\x00' * d.uni(0, 1)
	else:
		runs = ntfs.gen_runs(d, d.int(1, 6), first_zero=True)
		b = bytearray(ntfs.enc_runs(runs, d))
		for _ in range(d.uni(1, 3)):
			p = d.uni(0, len(b) - 1)
			b[p] = d.pick((0, 0xFF, b[p] ^ (1 << d.uni(0, 7)), d.u(8)))
	try:
		want, neg = reference(b)
	except Bad as e:
		r.label('rejected')
		r.nontrivial(bytes(b))
		raises(MFT.MappingPairsException, MFT.DecodeMappingPairs, 'run list %s (%s)' % (bytes(b).hex(), e), bytes(b))
		return
	if neg:
		# A negative cluster number is nonsense; refusing it is as good as passing it on.
		try:
			got = decode(b, d)
		except MFT.MappingPairsException:
			return
	else:
		got = decode(b, d)
	eq([tuple(x) for x in got], want, 'runs of %s' % bytes(b).hex())
	if len(want) > 1:
		r.nontrivial(bytes(b))
	r.label('accepted')
	r.sample(bytes(b).hex())


TESTS = [
	Test('roundtrip', t_roundtrip, 480000, shards=3, qsec=25),
	Test('truncation', t_truncation, 60000, shards=2, qsec=25),
	Test('differential', t_differential, 800000, shards=3, qsec=25),
]
