"""C19: partition tables."""
import struct, uuid, binascii
from checks import Test
from vlib.engine import *
from vlib.sparse import Sparse
from dfir_ntfs import PartitionTable as PT

RULE = ('GPT: generated disks (sector size, array location and geometry, entry size, names, damage to either copy, moved backup) where the harness knows which copy is usable; MBR: generated '
	'primary entries and chains of extended tables with loops, gaps, missing signatures and truncation. Non-trivial: at least one partition and either damage, a backup or an extended chain. '
	'Distinct by layout.')


def gpt_entry(d, size, used):
	if not used:
		tg = bytes(16)
		return None, tg + d.blob(size - 16) if d.chance(30) else bytes(size)
	tg, ug = d.blobnz(16), d.blob(16)
	if d.chance(20):
		tg = bytes(15) + b'\x01'
	a, b, at = d.u(64), d.u(64), d.u(64)
	name = d.name(0, 36) if d.chance(80) else ''
	raw = name.encode('utf-16le')
	rest = 72 - len(raw)
	if rest and d.chance(30):
		rawn = raw + b'\x00\x00' + d.pick((bytes(rest - 2), b'\x41\x00' * ((rest - 2) // 2)))
	else:
		rawn = raw.ljust(72, b'\x00')
	want = name
	if d.chance(5):
		rawn = b'\x00\xDC' + rawn[2:]
		want = ''
	e = struct.pack('<16s16sQQQ72s', tg, ug, a, b, at, rawn)
	return (uuid.UUID(bytes_le=tg), uuid.UUID(bytes_le=ug), a, b, at, want), e + d.blob(size - 128)


def gpt_header(ss, f):
	h = struct.pack('<8sLLLLQQQQ16sQLLL', f['sig'], f['rev'], f['hsize'], 0, f['res'], f['my'], f['alt'], f['first'], f['last'], f['guid'], f['elba'], f['n'], f['esize'], f['ecrc'])
	h += f['extra']
	h = h[:max(92, f['hsize'])].ljust(ss, b'\x00')
	crc = binascii.crc32(h[:min(f['hsize'], ss)])
	if f.get('crcflip'):
		crc ^= f['crcflip']
	return h[:16] + struct.pack('<L', crc) + h[20:]


def t_gpt(d, r):
	ss = d.pick((512, 512, 4096, 1024))
	esize = 128 * d.pick((1, 1, 1, 2, 4))
	n = d.pick((128, 4, 1, 16, 0)) if d.bool() else d.int(0, 140)
	sectors = d.int(3 + 2 * (16384 // ss) + 40 * 140 * 512 // ss, 1 << 22) if d.bool() else (1 << 33)
	first = 2 + 16384 // ss + d.int(0, 60)
	last = sectors - 2 - 16384 // ss
	guid = d.blob(16)
	arrlen = max(1, (n * esize + ss - 1) // ss)
	copies = []
	for which in range(2):
		parts, arr = [], b''
		for i in range(n):
			p, e = gpt_entry(d, esize, d.chance(30 if n > 20 else 70))
			arr += e
			if p is not None:
				parts.append(p)
		copies.append([parts, arr])
	if d.chance(60):
		copies[1] = copies[0]  # Usually identical; a difference shows which one was read.
	hsize = d.pick((92, 92, 92, 96, ss))
	bpos = sectors - 1 if d.chance(70) else d.uni(sectors // 2, sectors - 2)
	elba = [2 + d.pick((0, 0, 7)), sectors - 1 - arrlen - d.int(0, 5)]
	if bpos != sectors - 1:
		elba[1] = bpos - arrlen - d.int(1, 4)
	extra = d.blob(ss)
	hdr = []
	for which in range(2):
		parts, arr = copies[which]
		hdr.append(dict(sig=b'EFI PART', rev=d.pick((0x10000, 0x10000, d.int(1, 0xFFFFFFFF))), hsize=hsize, res=d.u(32), my=(1, bpos)[which], alt=(bpos, 1)[which], first=first, last=last, guid=guid,
			elba=elba[which], n=n, esize=esize, ecrc=binascii.crc32(arr) & 0xFFFFFFFF, extra=extra))
	damage = [d.chance(40), d.chance(20)]
	kinds = [None, None]
	arrbad = [None, None]
	for w in range(2):
		if not damage[w]:
			continue
		k = d.uni(0, 13)
		kinds[w] = k
		f = hdr[w]
		if k == 0:
			f['sig'] = d.pick((b'EFI PARU', bytes(8), b'efi part'))
		elif k == 1:
			f['rev'] = 0
		elif k == 2:
			f['hsize'] = d.pick((91, 0, ss + 1, 0xFFFFFFFF))
		elif k == 3:
			f['crcflip'] = d.int(1, 0xFFFFFFFF)
		elif k == 4:
			f['my'] += d.pick((1, -1, 1000))
		elif k == 5:
			f['alt'] = d.pick((0, f['my']))
		elif k == 12 and w == 0:
			# The location of the backup is damaged too.
			f['alt'] = d.pick((d.u(64), (1 << 64) - 1, 1 << 63, (1 << 63) // ss, sectors, sectors - 2, 2))
			if f['alt'] in (bpos, 1):
				f['alt'] = sectors + 7
			f['crcflip'] = d.int(1, 0xFFFFFFFF)
		elif k == 6:
			f['first'] = d.int(0, 1 + 16384 // ss)
		elif k == 7:
			f['elba'] = d.pick((0, 1, sectors, sectors + 1, sectors * 2))
		elif k == 8:
			f['esize'] = d.pick((0, 127, 64, esize + 1, 192))
		elif k == 9:
			f['ecrc'] ^= d.int(1, 0xFFFFFFFF)
		elif k == 10 and n:
			arrbad[w] = d.uni(0, n * esize - 1)
		elif k == 11 and n:
			f['n'] = n + d.int(1, 3)
			f['ecrc'] ^= 1
		elif k == 13:
			pass
		if k in (10, 11) and not n or k == 13 or k == 12 and w == 1:
			damage[w] = False
			kinds[w] = None
	size = sectors * ss + (d.int(0, ss - 1) if d.chance(10) and bpos != sectors - 1 else 0)
	img = Sparse(size)
	img.put(0, d.blob(446) + bytes(64) + b'\x55\xAA')
	for w in range(2):
		raw = gpt_header(ss, hdr[w])
		img.put((1, bpos)[w] * ss, raw)
		arr = copies[w][1]
		if arrbad[w] is not None:
			arr = arr[:arrbad[w]] + bytes([arr[arrbad[w]] ^ d.int(1, 255)]) + arr[arrbad[w] + 1:]
		img.put(elba[w] * ss, arr)
	# A single flipped bit in a checked header is damage too.
	for w in range(2):
		if not damage[w] and d.chance(12):
			o = d.uni(0, hsize - 1)
			if w == 1 or o >= 8 and not 32 <= o < 40:
				img.flip((1, bpos)[w] * ss + o, 1 << d.uni(0, 7))
				damage[w] = True
				kinds[w] = 'flip%d' % o
	# Which copy is expected?
	if not damage[0]:
		want, loc = 0, 0
	elif damage[1]:
		want = None
	else:
		if kinds[0] == 0:
			alt = None
		else:
			alt = hdr[0]['alt']
		if alt == bpos:
			want, loc = 1, 2
		elif bpos == sectors - 1 and size == sectors * ss:
			want, loc = 1, 1
		else:
			want = None
	g = PT.GPT(img, ss)
	for rep in range(2):
		if want is None:
			raises((ValueError, OverflowError), g.read_gpt_header, 'header (damage %r)' % (kinds,))
		else:
			h = g.read_gpt_header()
			f = hdr[want]
			eq(tuple(h), (loc, f['first'], f['last'], uuid.UUID(bytes_le=guid), f['elba'], n, esize, f['ecrc']), 'header (damage %r)' % (kinds,))
			got = g.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
			eq([tuple(x) for x in got], copies[want][0], 'partitions')
			g2 = g.read_gpt_header_internal()if want == 0 else None
	if n and arrbad[0] is not None:
		f = hdr[0]
		raises(ValueError, g.read_gpt_partitions, 'array with a wrong checksum', elba[0], n, esize, f['ecrc'])
	if any(damage) or copies[0][0]:
		r.nontrivial(ss, esize, n, sectors, str(kinds), guid)
	r.label('backup-used', want == 1)
	r.label('nothing-usable', want is None)
	r.label('moved-backup', bpos != sectors - 1)
	r.sample('sector=%d entries=%dx%d disk=%d damage=%r -> copy %r' % (ss, n, esize, sectors, kinds, want))


def t_gptsize(d, r):
	ss = d.pick((512, 4096, 1024, 0, 511, 513, 1000, 256))
	lim = 3 * ss + 2 * 16384
	size = max(0, lim + d.pick((-1, -100, 0, 1, d.int(-lim, 0))))
	img = Sparse(size)
	bad = ss < 512 or ss % 512 or size < lim
	if bad:
		raises(ValueError, PT.GPT, 'sector size %d, disk size %d' % (ss, size), img, ss)
	else:
		raises(ValueError, PT.GPT(img, ss).read_gpt_header, 'header of an empty disk')
	badm = ss < 512 or ss % 512 or size < 2 * ss
	if badm:
		raises(ValueError, PT.MBR, 'MBR sector size %d, disk size %d' % (ss, size), img, ss)
	else:
		raises(ValueError, PT.MBR(img, ss).read_mbr, 'MBR of an empty disk')
	r.nontrivial(ss, size)
	r.sample('sector=%d size=%d' % (ss, size))


def t_mbr(d, r):
	ss = d.pick((512, 512, 512, 4096, 1024))
	sectors = d.pick((1 << 20, 1 << 31, 1 << 34, 5000))
	img = Sparse(sectors * ss)
	code = d.pick((bytes(440), d.blobnz(440), b'\xEB' + bytes(439), b'\x00\x01' + bytes(438)))
	sig = d.u(32)
	prim, ext = [], []
	table = b''
	ebrs = {}
	used = set()

	def new_lba():
		for _ in range(50):
			x = d.int(1, min(sectors - 1, 0xFFFFFFFF))
			if x not in used:
				used.add(x)
				return x
		raise Discard()

	for i in range(4):
		bi, c1, c2, size = d.u(8), d.blob(3), d.blob(3), d.u(32)
		t = d.pick((0, 7, 0x0B, 0xEE, 0xEF, 5, 0xF, 0x85)) if d.bool() else d.u(8)
		start = d.u(32)
		if t in (5, 0xF, 0x85):
			start = new_lba() if not d.chance(8) else min(sectors + d.int(0, 5), 0xFFFFFFFF)
			if not ext and d.chance(3):
				start = 0
			ext.append(start)
		table += struct.pack('<B3sB3sLL', bi, c1, t, c2, start, size)
		if t:
			prim.append((bi, c1, t, c2, start, size))
	# Chains of extended tables: relative links count from the start of the extended partition.
	loops = 0
	for e in ext:
		if e == 0 or e in ebrs or (e + 1) * ss > sectors * ss:
			continue
		cur = e
		for k in range(d.int(1, 6)):
			bi, t, rel, size = d.u(8), d.pick((7, 0x83, 0, 5)), d.u(32), d.u(32)
			end = d.pick(('zero', 'link', 'link', 'link', 'loop', 'outside'))
			good = not d.chance(7)
			nxt = 0
			target = None
			if end == 'link':
				for _ in range(20):
					target = e + d.int(1, min(0xFFFFFFFF, sectors * 2))
					if (target + 1) * ss <= sectors * ss and target not in ebrs and target not in ext and target not in used:
						break
				else:
					target = None
				if target is not None:
					nxt = target - e
					used.add(target)
			elif end == 'loop':
				cands = [x - e for x in list(ebrs) + [cur] if 0 < x - e <= 0xFFFFFFFF]
				if cands:
					nxt = d.pick(cands)
					loops += 1
			elif end == 'outside' and sectors - e <= 0xFFFFFFF0:
				nxt = max(1, sectors - e + d.int(0, 9))
			raw = d.blob(446) + struct.pack('<B3sB3sLL', bi, d.blob(3), t, d.blob(3), rel, size) + struct.pack('<B3sB3sLL', d.u(8), d.blob(3), d.pick((5, 0xF, 0)), d.blob(3), nxt, d.u(32)) + d.blob(32)
			raw += b'\x55\xAA' if good else d.pick((b'\x55\xAB', b'\xAA\x55', b'\x00\x00'))
			ebrs[cur] = (good, (bi, t, cur + rel, size), nxt)
			img.put(cur * ss, raw)
			if target is None or nxt == 0:
				break
			cur = target
	img.put(0, code + struct.pack('<L', sig) + d.blob(2) + table + b'\x55\xAA')
	# Reference walk.
	want = []
	track = set()
	for e in ext:
		if e == 0:
			want = []
			break
		nxt = 0
		while True:
			cur = e + nxt
			if cur in track:
				break
			track.add(cur)
			x = ebrs.get(cur)
			if x is None or not x[0]:
				break
			if x[1][1]:
				want.append(x[1])
			nxt = x[2]
			if nxt == 0:
				break
	m = PT.MBR(img, ss)
	for rep in range(2):
		eq(tuple(m.read_mbr()), (code[0] != 0 and code[1] != 0, sig), 'MBR')
		eq([tuple(x) for x in m.read_mbr_partitions()], prim, 'primary partitions')
		eq([tuple(x) for x in m.read_ebr_partitions()], want, 'logical partitions')
	img.put(510, b'\x55\xAB')
	raises(ValueError, PT.MBR(img, ss).read_mbr, 'MBR without a signature')
	if want and len(ebrs) > 1:
		r.nontrivial(ss, sectors, tuple(ext), tuple(sorted((k, v[2]) for k, v in ebrs.items())))
	r.label('loop', loops > 0)
	r.label('two-extended', len(ext) > 1)
	r.sample('sector=%d primary=%d extended=%s tables=%d logical=%d' % (ss, len(prim), ext, len(ebrs), len(want)))


TESTS = [
	Test('gpt', t_gpt, 40000, shards=4, qsec=30),
	Test('sizes', t_gptsize, 7500, shards=1, qsec=10),
	Test('mbr', t_mbr, 75000, shards=3, qsec=30),
]
