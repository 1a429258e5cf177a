"""C10: directory indexes and index slack."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import Attributes, MFT

RULE = ('A case writes a directory index (root entries and 1-6 allocation buffers of generated size, fragmented over a generated volume, some buffers torn or zeroed, stale bytes after the used part) and '
	'compares the yielded entries, buffer headers and slack with the writer. Non-trivial: two or more buffers or three or more entries. Distinct by image.')


def gen_entries(d, n, room, node_ok=True):
	out = []
	raw = []
	used = 0
	for _ in range(n):
		fn = ntfs.FN(d.u(64), d.name(1, 40), d.u(8), size=d.int(0, 1 << 40))
		val = fn.value()
		if d.chance(8):
			val = d.blobnz(d.int(1, 70))  # An index of something else.
		ref = d.u(64)
		vcn = d.u(64) if node_ok and d.chance(25) else None
		flags = 1 if vcn is not None else 0
		e = ntfs.index_entry(ref, val, flags, vcn)
		if vcn is None and d.chance(15):
			# The stated length need not include the padding.
			e = e[:8] + struct.pack('<H', 16 + len(val)) + e[10:]
		if used + len(e) + 24 > room:
			break
		used += len(e)
		out.append((ref, flags, vcn, val))
		raw.append(e)
	return out, raw


def got_entry(e):
	return (e.get_file_reference(), e.get_flags(), e.get_vcn(), bytes(e.get_attribute()))


def t_root(d, r):
	ents, raw = gen_entries(d, d.int(0, 10), 3000)
	endvcn = d.u(64) if d.bool() else None
	raw.append(ntfs.index_end(endvcn))
	tail = d.blob(d.pick((0, 0, 8, 64)))
	if d.chance(30):
		# Stale entries after the used part.
		tail = gen_entries(d, 2, 1000)[1]
		tail = b''.join(tail)
	bs = d.pick((512, 1024, 2048, 4096, 8192))
	val = ntfs.index_root_value(raw, bs, d.u(8), large=d.bool(), tail=tail)
	if d.chance(20):
		# A gap before the first entry.
		gap = d.blobnz(8 * d.int(1, 6))
		val = val[:16] + struct.pack('<LLL', *[x + len(gap) for x in struct.unpack('<LLL', val[16:28])]) + val[28:32] + gap + val[32:]
	ir = Attributes.IndexRoot(bytearray(val) if d.bool() else val)
	eq([got_entry(e) for e in ir.index_entries()], ents, 'root entries')
	eq([got_entry(e) for e in ir.index_entries()], ents, 'root entries, second time')
	for e, w in zip(ir.index_entries(), ents):
		if len(w[3]) < 66:
			continue
		fn = Attributes.FileName(e.get_attribute())
		eq(fn.get_parent_directory(), struct.unpack('<Q', w[3][:8])[0], 'parent in an entry')
	eq(ir.get_bytes_per_index_buffer(), bs, 'buffer size')
	if len(ents) >= 3:
		r.nontrivial(val)
	r.sample('%d entries, tail %d' % (len(ents), len(tail)))


def t_alloc(d, r):
	bs = d.pick((4096, 4096, 1024, 2048, 8192, 16384)) if d.chance(90) else 512 * d.pick((3, 7, 128, 129, 234, d.int(2, 234)))
	n = d.int(1, 6) if bs <= 16384 else d.int(1, 3)
	if bs in (1024, 2048, 4096) and d.chance(1):
		n = d.int(60, 600)
		d = d.sub()
	cs = d.pick((512, 1024, 2048, 4096))
	while cs > bs:
		cs //= 2
	bufs = []
	model = []
	for i in range(n):
		usa_off = d.pick((40, 40, 42, 48, 64)) if bs <= 65536 else 40
		first = (usa_off + 2 * (bs // 512 + 1) + 7) & ~7
		if d.chance(20) and first + 200 < bs:
			first += 8 * d.int(1, 12)
		room = bs - first
		ents, raw = gen_entries(d, d.int(0, 30) if d.chance(70) else 200, room)
		endvcn = d.u(64) if d.chance(30) else None
		end = ntfs.index_end(endvcn)
		body = raw + [end]
		left = room - sum(map(len, body))
		slack = d.blob(left) if d.bool() else (b''.join(gen_entries(d, 3, left)[1]) if left > 100 else b'\x11' * left)
		if d.chance(10) and left >= 0:
			slack = b''
		vcn = d.u(64)
		lsn = d.u(64)
		fl = d.pick((0, 1))
		avail = bs - 24 if d.chance(80) else d.pick((bs - first, sum(map(len, body)), d.u(32), 0))
		prot, plain, e = ntfs.index_buffer(bs, body, vcn, lsn, d.int(1, 0xFFFF), usa_off, slack, fl, entries_offset=first, available=avail)
		b = bytearray(prot)
		state = 'ok'
		if i > 0 and d.chance(25):
			state = d.pick(('torn', 'zero', 'sig', 'usa'))
			if state == 'torn':
				s = d.uni(0, bs // 512 - 1)
				pos = (s + 1) * 512 - 2 + d.uni(0, 1)
				b[pos] ^= d.int(1, 255)
			elif state == 'zero':
				b = bytearray(bs)
			elif state == 'sig':
				b[0:4] = d.pick((b'BAAD', b'FILE', b'INDY', b'\x00\x00\x00\x00'))
			else:
				struct.pack_into('<H', b, 6, d.pick((0, 1, bs // 512, bs // 512 + 2, 0xFFFF)))
		bufs.append(bytes(b))
		if state == 'ok':
			model.append((lsn, vcn, fl, first - 24, e - 24, avail, ents, plain[e:]))
		r.label(state)
	data = b''.join(bufs)
	size = len(data)
	clusters = (size + cs - 1) // cs
	pool = list(range(1, clusters * 2 + 8))
	runs, lcns = ntfs.split_runs(d, clusters, pool, d.uni(1, 5))
	voff = d.pick((0, 512, 4096 * 3))
	vol = bytearray(d.blob((clusters * 2 + 10) * cs))
	padded = data + b'\x5A' * (clusters * cs - size)
	for i, l in enumerate(lcns):
		vol[l * cs:(l + 1) * cs] = padded[i * cs:(i + 1) * cs]
	image = bytes(voff) + bytes(vol)
	f = ntfs.ROFile(image)
	# Through a record, merged if split.
	attr = ntfs.attr_nonresident(0xA0, runs, alloc=clusters * cs, size=size, name='$I30')
	frs = MFT.FileRecordSegment(ntfs.Record(30, 1, 3, attrs=[attr]).build()[0])
	fr = MFT.FileRecord(frs, [])
	eq(fr.get_data_runs('$I30', True), runs, 'index runs')
	a = list(fr.attributes(True))[0]
	ia = a.value_decoded(f, voff, cs)
	eq(ia.index_buffer_size, bs, 'buffer size')
	for attempt in (1, 2):
		got = list(ia.index_buffers())
		eq(len(got), len(model), 'number of intact buffers')
		for b, m in zip(got, model):
			h = b.get_index_header()
			eq((b.get_logfile_sequence_number(), b.get_this_block(), h.get_flags(), h.get_first_index_entry(), h.get_first_free_byte(), h.get_bytes_available()), m[:6], 'buffer header')
			eq([got_entry(e) for e in b.index_entries()], m[6], 'buffer entries')
			eq(bytes(b.get_slack()), m[7], 'buffer slack')
		eq([bytes(s) for s in ia.get_slack()], [m[7] for m in model if len(m[7]) > 8], 'index slack')
	# Interleaved iteration over the shared file.
	its = [ia.index_buffers(), ia.index_buffers()]
	seen = [[], []]
	for _ in range(2 * len(model)):
		k = d.uni(0, 1)
		try:
			seen[k].append(next(its[k]).get_this_block())
		except StopIteration:
			pass
	for s in seen:
		eq(s, [m[1] for m in model][:len(s)], 'interleaved iteration')
	if n >= 2 or sum(len(m[6]) for m in model) >= 3:
		r.nontrivial(image)
	r.sample('%d buffers of %d, cluster %d, runs %s, entries %s' % (n, bs, cs, runs, [len(m[6]) for m in model]))


def t_single(d, r):
	"""Unprotecting one buffer: any subset of torn sectors is rejected."""
	bs = d.pick((1024, 2048, 4096, 8192))
	ents, raw = gen_entries(d, d.int(0, 6), bs - 200)
	prot, plain, e = ntfs.index_buffer(bs, raw + [ntfs.index_end()], d.u(64), 0, d.int(0, 0xFFFF), d.pick((40, 40, 56)), d.blob(300), 0)
	got = Attributes.VerifyAndUnprotectIndexSectors(bytearray(prot))
	check(got is not None, 'an intact buffer was rejected')
	eq(bytes(got), plain, 'unprotected buffer')
	n = bs // 512
	bad = bytearray(prot)
	hit = []
	for s in range(n):
		if d.chance(30):
			bad[(s + 1) * 512 - 2 + d.uni(0, 1)] ^= d.int(1, 255)
			hit.append(s)
	if hit:
		eq(Attributes.VerifyAndUnprotectIndexSectors(bad), None, 'buffer with torn sectors %s' % hit)
		r.nontrivial(bytes(prot), tuple(hit))
	r.sample('size %d torn %s' % (bs, hit))


def t_entry(d, r):
	"""One entry of any kind."""
	val = d.blobnz(d.int(0, 90)) if d.chance(80) else b''
	vcn = d.u(64) if d.bool() else None
	end = d.chance(30)
	ref = d.u(64)
	hi = d.u(16) & ~3
	raw = ntfs.index_entry(ref, val, hi | (2 if end else 0), vcn)
	for extra in (b'', d.blob(d.int(1, 40))):
		e = Attributes.IndexEntry(raw + extra)
		eq((e.get_file_reference(), e.get_length(), e.get_attribute_length(), e.get_flags()), (ref, len(raw), len(val), hi | (2 if end else 0) | (1 if vcn is not None else 0)), 'entry header')
		got = e.get_attribute()
		eq(None if got is None else bytes(got), val if val and not end else None, 'entry value')
		eq(e.get_vcn(), vcn, 'child pointer')
	if val or vcn is not None:
		r.nontrivial(raw)
	r.label('end entry with a child', end and vcn is not None)
	r.sample('value %d bytes, child %r, end %r' % (len(val), vcn, end))


TESTS = [
	Test('entry', t_entry, 40000, shards=1, qsec=15),
	Test('root', t_root, 40000, shards=2, qsec=20),
	Test('alloc', t_alloc, 15000, shards=5, qsec=25),
	Test('single', t_single, 40000, shards=1, qsec=20),
]
