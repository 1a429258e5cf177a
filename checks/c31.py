"""C31: carving file control blocks from memory."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import MFT

RULE = ('A case builds a raw memory image of 4096-byte pages with file control blocks of one generated layout (positions of the four stored timestamps and of the in-memory access time), decoys '
	'(signature without plausible times, times just outside the accepted era, other layouts) and a possibly truncated last page; the carved items must be exactly the planted blocks. '
	'The refusal family plants too few or too varied blocks. Non-trivial: decoys or several pages. Distinct by layout and placement.')
SIG = b'\x02\x07'
LO, HI = 123000000000000000, 135000000000000000


def layout(d):
	p = 2 * d.int(8, 71)
	a = 2 * d.int((p + 56) // 2, 103)
	return p, a


def ts(d):
	return d.pick((LO, HI, d.int(LO, HI), d.int(LO, HI), d.int(LO, HI)))


def clean(raw, keep):
	"""Remove accidental signatures at even positions."""
	b = bytearray(raw)
	for i in range(0, len(b) - 1, 2):
		if b[i] == SIG[0] and b[i + 1] == SIG[1] and i not in keep:
			b[i] = 0x55
	return b


def fcb(d, p, a, bad=None):
	"""-> (bytes, expected fields)."""
	ref = d.u(64)
	t = [ts(d) for _ in range(5)]
	if bad is not None:
		t[bad] = d.pick((LO - 1, HI + 1, 0, 1 << 63, d.int(HI + 1, 1 << 62)))
	body = bytearray(a + 8)
	fill = d.blob(a + 8)
	body[:] = bytes(x | 0x80 for x in fill)  # Never a plausible timestamp.
	body[0:2] = SIG
	struct.pack_into('<Q', body, 8, ref)
	struct.pack_into('<QQQQ', body, p, *t[:4])
	struct.pack_into('<Q', body, a, t[4])
	body = clean(body, (0,))
	ref = struct.unpack_from('<Q', body, 8)[0]
	t = list(struct.unpack_from('<QQQQ', body, p)) + [struct.unpack_from('<Q', body, a)[0]]
	return bytes(body), (ref, t)


def plant(d, blocks, lastlen):
	"""Place the blocks in pages. Returns (image, [(offset, index)])."""
	pages = []
	cur = bytearray()
	placed = []
	style = d.pick((0, 0, 1, 2))
	odd = d.chance(30)

	def flush():
		nonlocal cur
		cur += bytes(x | 0x80 for x in d.blob(4096 - len(cur)))
		pages.append(bytes(cur))
		cur = bytearray()
		if d.chance(20):
			pages.append(bytes(clean(d.pick((bytes(4096), bytes(x | 0x80 for x in d.blob(4096)))), ())))

	for i, raw in enumerate(blocks):
		gap = 0 if style == 0 else 2 * d.int(0, 30) if style == 1 else 2 * d.int(0, 400)
		if len(cur) + gap + len(raw) > 4096:
			if style == 1 and len(cur) + len(raw) <= 4096:
				gap = 4096 - len(cur) - len(raw)  # Exactly at the end of a page.
			else:
				flush()
				gap = d.pick((0, gap))
				if gap + len(raw) > 4096:
					gap = 0
		filler = bytearray(b'\xAA' * gap)
		if gap >= 6 and odd and d.chance(40):
			# The signature at an odd offset.
			o = 1 + 2 * d.int(0, gap // 2 - 3)
			filler[o:o + 2] = SIG
		cur += filler
		placed.append((len(pages) * 4096 + len(cur), i))
		cur += raw
	img = b''.join(pages)
	if cur:
		if lastlen:
			# The last page is cut right after its last block.
			pass
		else:
			cur += bytes(4096 - len(cur))
		img += bytes(cur)
	return img, placed


def t_carve(d, r):
	p, a = layout(d)
	n = d.int(40, 90) if d.chance(85) else d.int(101, 140)
	exact = d.chance(10)
	if exact:
		n = 25
	blocks, want = [], []
	kinds = []
	ndec = 0
	for i in range(n):
		if i and not exact and d.chance(15):
			k = d.uni(0, 2)
			if k == 0:
				b = bytearray(bytes(x | 0x80 for x in d.blob(2 * d.int(120, 160))))
				b[0:2] = SIG
				b = bytes(clean(b, (0,)))
			elif k == 1:
				b, _ = fcb(d, p, a, d.uni(0, 4))
			else:
				p2, a2 = layout(d)
				if p2 == p or ndec > 4 or abs(p2 - p) < 32:
					continue
				b, _ = fcb(d, p2, a2)
				ndec += 1
			blocks.append(b + (b'' if k == 0 and len(b) % 2 == 0 and not d.chance(70) else bytes(220)))
			kinds.append(k)
			want.append(None)
		b, e = fcb(d, p, a)
		blocks.append(b)
		want.append(e)
	img, placed = plant(d, blocks, d.bool())
	tail = len(img) % 4096
	if 0 < tail < 512:
		img += bytes(512 - tail)
	f = ntfs.ROFile(img)
	c = MFT.MetadataCarver(f)
	exp = [(o,) + want[i] for o, i in placed if want[i] is not None]
	for rep in range(2 if d.chance(10) else 1):
		got = list(c.carve_fcb_timestamps())
		gp = [x.positions[0] for x in got]
		ep = [x[0] for x in exp]
		if gp != ep:
			i = next((i for i in range(min(len(gp), len(ep))) if gp[i] != ep[i]), min(len(gp), len(ep)))
			raise Violation('block %d of %d: found at %s, planted at %s (layout %d/%d)' % (i, len(ep), gp[i:i + 2], ep[i:i + 2], p, a))
		for x, (o, ref, t) in zip(got, exp):
			eq((x.possible_file_reference, x.positions), (ref, (o, p, a)), 'reference and positions')
			for name, v in zip(('ctime', 'mtime', 'etime', 'atime', 'atime_real'), t):
				check(ntfs.time_ok(getattr(x, name), v), '%s at %d: %r for %d', name, o, getattr(x, name), v)
	check(f.getvalue() == img, 'the image was modified')
	if kinds or len(img) > 4096:
		r.nontrivial(p, a, tuple(o for o, _ in placed))
	r.label('decoys', bool(kinds))
	r.label('minimum', exact)
	r.label('over-100', n > 100)
	r.sample('layout %d/%d blocks=%d decoys=%d pages=%d' % (p, a, n, len(kinds), (len(img) + 4095) // 4096))


def t_refuse(d, r):
	p, a = layout(d)
	if d.bool():
		n = d.int(0, 24)
		blocks = [fcb(d, p, a)[0] for _ in range(n)]
		what = '%d blocks' % n
	else:
		# Every block has its own position of the stored times: fewer than 20 agree.
		n = d.int(25, 60)
		m = d.int(4, 6)
		ps = [16 + 20 * i for i in range(m)]
		blocks = [fcb(d, ps[i % m], 16 + 20 * (i % m) + 56 + 2 * d.int(0, 2))[0] + bytes(220) for i in range(n)]
		if n // m + 1 >= 20:
			raise Discard()
		what = '%d blocks of %d layouts' % (n, m)
	img, _ = plant(d, blocks, d.bool())
	if d.chance(30):
		img += b'\x02\x07' * d.int(0, 255)
	c = MFT.MetadataCarver(ntfs.ROFile(img))
	raises(ValueError, lambda: list(c.carve_fcb_timestamps()), what)
	r.nontrivial(what, p, a, len(img))
	r.sample(what)


TESTS = [
	Test('carve', t_carve, 12000, shards=6, qsec=30),
	Test('refuse', t_refuse, 4500, shards=2, qsec=20),
]
