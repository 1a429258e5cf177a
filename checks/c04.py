"""C04: reading non-resident streams."""
from checks import Test
from vlib.engine import *
from vlib import ntfs
from vlib.sparse import Numbered, numbered
from dfir_ntfs import MFT

RULE = ('A case lays a stream out on a generated volume image (cluster size, volume offset, fragments, sparse runs, stream size not a multiple of the cluster size) and runs a '
	'generated history of seek/tell/read calls against a byte-string model; the missing-data family removes clusters from the image or the run list. Non-trivial: '
	'two or more runs and a read crossing a run boundary or end of file. The far family uses volumes and streams beyond 4 GiB and beyond 2**53 bytes, every sector of which '
	'holds its own number; the large family reads tens of megabytes in one call. Distinct by layout and history.')


def layout(d, maxclusters=24):
	cs = d.pick((512, 1024, 2048, 4096))
	voff = d.pick((0, 512, 4096, 7, 65536 + 512))
	nruns = d.int(1, 6)
	pool = list(range(0, 40))
	runs = []
	content = bytearray()
	vol = bytearray(d.blob(40 * cs))
	if not any(vol):
		vol = bytearray(bytes((i * 7 + i // cs) & 0xFF for i in range(len(vol))))
	total = 0
	for i in range(nruns):
		n = d.int(1, 5)
		if total + n > maxclusters:
			break
		if d.chance(25):
			runs.append((None, n))
			content += b'\x00' * (n * cs)
		else:
			start = d.uni(1 if runs else 0, 40 - n)
			runs.append((start, n))
			content += vol[start * cs:(start + n) * cs]
		total += n
	image = bytes(d.blob(voff)) + bytes(vol)
	return cs, voff, runs, bytes(content), image


def gen_ops(d, size, cs, n):
	ops = []
	for _ in range(n):
		k = d.uni(0, 9)
		edge = d.pick((0, cs, size, size - 1, size + 1, size // 2, cs - 1, cs + 1, (size // cs) * cs))
		pos = max(0, edge) if d.chance(50) else d.int(0, size + cs)
		if k <= 2:
			ops.append(('seek', pos, 0))
		elif k == 3:
			ops.append(('seek', d.int(-size - 5, size + 5), 1))
		elif k == 4:
			ops.append(('seek', d.int(-size - 5, 5), 2))
		elif k == 5:
			ops.append(('seek', -d.int(1, 50), 0) if d.chance(50) else ('seek', 0, d.int(3, 9)))
		elif k == 6:
			ops.append(('readall', d.pick((None, -1, -5, 'noarg'))))
		else:
			n2 = d.pick((0, 1, cs, cs + 1, 2 * cs, size, size + 1, size + 5 * cs)) if d.chance(50) else d.int(0, size + cs)
			ops.append(('read', n2))
	return ops


def run_history(f, model, size, ops):
	pos = 0
	crossed = False
	for i, op in enumerate(ops):
		if op[0] == 'seek':
			new = {0: op[1], 1: pos + op[1], 2: size + op[1]}.get(op[2])
			what = 'op %d %r' % (i, op)
			if new is None or new < 0:
				raises(ValueError, f.seek, what, op[1], op[2])
			else:
				res = f.seek(op[1], op[2]) if (op[2] or i % 2) else f.seek(op[1])
				eq(res, new, what)
				pos = new
		else:
			if op[0] == 'readall':
				got = f.read() if op[1] == 'noarg' else f.read(op[1])
				want = model[pos:size]
			else:
				got = f.read(op[1])
				want = model[pos:min(size, pos + op[1])] if pos < size else b''
			eq(len(got), len(want), 'length of op %d %r at %d (size %d)' % (i, op, pos, size))
			check(bytes(got) == bytes(want), 'bytes of op %d %r at %d differ', i, op, pos)
			if len(want) > 0:
				crossed = True
			pos += len(want)
		eq(f.tell(), pos, 'position after op %d %r' % (i, op))
	return crossed


def t_history(d, r):
	cs, voff, runs, content, image = layout(d)
	total = len(content)
	size = d.int(max(0, total - cs), total) if d.chance(70) else d.int(0, total)
	vol = ntfs.ROFile(image)
	f = MFT.FragmentedFile(vol, voff, cs, list(runs), size)
	ops = gen_ops(d, size, cs, d.int(1, 14))
	if d.chance(10):
		vol.seek(d.int(0, len(image)))
	crossed = run_history(f, content, size, ops)
	check(vol.getvalue() == image, 'the volume was modified')
	if len(runs) >= 2 and crossed:
		r.nontrivial(cs, voff, tuple(runs), size, tuple(ops))
	r.label('sparse', any(x[0] is None for x in runs))
	r.label('slack', size % cs != 0)
	r.sample('cluster=%d offset=%d runs=%s size=%d ops=%s' % (cs, voff, runs, size, ops[:5]))


def t_missing(d, r):
	cs, voff, runs, content, image = layout(d)
	total = len(content)
	if d.bool():
		# The run list covers less than the stream size.
		size = total + d.int(1, 3 * cs)
		good = total
		img = image
	else:
		# The image is cut short.
		keep = d.int(voff, len(image) - 1)
		img = image[:keep]
		size = total
		good = None
	f = MFT.FragmentedFile(ntfs.ROFile(img), voff, cs, list(runs), size)
	available = []
	for lcn, n in runs:
		for k in range(n):
			available.append(lcn is None or voff + (lcn + k + 1) * cs <= len(img))
	failed = False
	for _ in range(d.int(1, 8)):
		pos = d.int(0, max(0, size - 1))
		n = d.int(1, 3 * cs)
		f.seek(pos)
		end = min(size, pos + n)
		if pos >= end:
			continue
		ok = all(v < len(available) and available[v] for v in range(pos // cs, (end - 1) // cs + 1))
		if ok:
			got = f.read(n)
			eq(bytes(got), content[pos:end], 'bytes at %d+%d' % (pos, n))
		else:
			failed = True
			raises(MFT.MasterFileTableException, f.read, 'read of missing data at %d+%d' % (pos, n), n)
	if failed:
		r.nontrivial(cs, voff, tuple(runs), size, len(img))
	r.label('missing-hit', failed)
	r.sample('cluster=%d runs=%s size=%d image=%d' % (cs, runs, size, len(img)))


def far_layout(d, big):
	cs = 512 << d.uni(0, 12)
	voff = d.pick((0, 512, 7, 1 << 20, 1 << 32, (1 << 40) + 512, d.int(0, 1 << 44)))
	lbits = 62 - (cs.bit_length() - 1) if d.chance(40) else d.pick((20, 30, 33, 40))
	lbits = min(lbits, 52 if cs <= 1024 else 62 - (cs.bit_length() - 1))
	runs = []
	for _ in range(d.int(1, 6)):
		n = d.pick((1, 2, d.int(1, 100), d.u(d.pick((8, 20, 31, 33))) + 1)) if big is None else max(1, big // cs // d.int(1, 4))
		runs.append((None if d.chance(20) else d.u(d.int(1, lbits)), n))
	return cs, voff, runs


def far_expected(cs, runs, pos, n):
	out = []
	base = 0
	for lcn, k in runs:
		a, b = max(pos, base), min(pos + n, base + k * cs)
		if a < b:
			out.append(bytes(b - a) if lcn is None else numbered(lcn * cs + a - base, b - a))
		base += k * cs
	return b''.join(out)


def t_far(d, r):
	cs, voff, runs = far_layout(d, None)
	total = sum(n for _, n in runs) * cs
	size = max(0, total - d.int(0, min(total, cs))) if d.chance(80) else d.int(0, total)
	vol = Numbered(1 << 80, voff)
	f = MFT.FragmentedFile(vol, voff, cs, list(runs), size)
	edges = [0, size]
	base = 0
	for lcn, n in runs:
		base += n * cs
		edges.append(base)
	edges += [1 << 31, 1 << 32, 1 << 53]
	pos = 0
	seen = 0
	for i in range(d.int(1, 6)):
		new = d.pick(edges) + d.pick((0, -1, 1, -cs, cs, d.int(-2 * cs, 2 * cs))) if d.chance(80) else d.int(0, size)
		new = max(0, new)
		wh = d.uni(0, 2)
		eq(f.seek((new, new - pos, new - size)[wh], wh), new, 'seek #%d' % i)
		n = d.pick((1, 16, 512, 513, d.int(1, 4096), d.int(1, max(1, 3 * cs) if cs <= 65536 else 4096)))
		want = far_expected(cs, runs, new, min(n, max(0, size - new)))
		got = f.read(n)
		eq(len(got), len(want), 'length of read(%d) at %d of %d' % (n, new, size))
		check(bytes(got) == want, 'read(%d) at %d of %d: wrong bytes', n, new, size)
		pos = new + len(want)
		eq(f.tell(), pos, 'position after read(%d) at %d' % (n, new))
		if new > 1 << 32:
			seen += 1
	if seen and len(runs) > 1:
		r.nontrivial(cs, voff, tuple(runs), size)
	r.label('position beyond 4 GiB', size > 1 << 32)
	r.label('volume position beyond 2**53', any(x is not None and x * cs > 1 << 53 for x, _ in runs))
	r.sample('cluster=%d offset=%d runs=%s size=%d' % (cs, voff, runs, size))


def t_large(d, r):
	# The clusters are large, because reading a cluster at a time takes quadratic time.
	cs = 65536 << d.uni(0, 5)
	voff = d.pick((0, 512, 1 << 32))
	total = d.int(8, 36) << 20
	cuts = sorted(set([total // cs] + [d.int(1, max(1, total // cs - 1)) for _ in range(d.int(0, 4))]))
	runs = [(None if d.chance(15) else d.u(d.int(1, 40)), b - a) for a, b in zip([0] + cuts, cuts)]
	total = sum(n for _, n in runs) * cs
	size = max(0, total - d.int(0, cs))
	f = MFT.FragmentedFile(Numbered(1 << 80, voff), voff, cs, list(runs), size)
	pos = d.int(0, size // 4) if d.bool() else 0
	n = d.pick((None, -1, size, d.int(size // 2, size + 10)))
	f.seek(pos)
	got = f.read(n) if n is not None else f.read()
	want = far_expected(cs, runs, pos, size - pos if n is None or n < 0 else min(n, size - pos))
	eq(len(got), len(want), 'length of read(%r) at %d of %d' % (n, pos, size))
	check(bytes(got) == want, 'read(%r) at %d of %d: wrong bytes', n, pos, size)
	eq(f.tell(), pos + len(want), 'position')
	if len(want) > 1 << 24:
		r.nontrivial(cs, voff, tuple(runs), size, n)
	r.label('over 16 MB', len(want) > 1 << 24)
	r.sample('cluster=%d runs=%s read(%r) at %d: %d bytes' % (cs, runs, n, pos, len(want)))


TESTS = [
	Test('history', t_history, 120000, shards=5, qsec=30),
	Test('missing', t_missing, 60000, shards=3, qsec=30),
	Test('far', t_far, 18000, shards=4, qsec=20),
	Test('large', t_large, 144, thorough=2000, shards=4, qsec=20),
]
