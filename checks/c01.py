"""C01: update sequence protection of file record segments and index buffers."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import MFT, Attributes

RULE = ('A case builds one protected record (size, header variant, signature, used size, content, sequence number, slack) and a set of torn sectors or one '
	'inconsistent header field, and compares acceptance, header fields, value bytes and slack with the writer model. Non-trivial: a value crossing a sector '
	'end, or a torn/invalid record. Distinct by all generated parameters.')


def gen_record(d):
	size = d.pick((1024, 4096))
	short = d.chance(20)
	rec = ntfs.Record(size=size, short=short)
	if d.chance(25):
		lo, hi = (42, 47) if short else (48, 510 - 2 * (size // 512 + 1))
		rec.usa_offset = d.int(lo, hi)
	rec.first_gap = d.uni(0, 3) if d.chance(15) else 0
	rec.sig = d.pickw(((8, b'FILE'), (1, b'BAAD'), (1, b'CHKD')))
	rec.seq = d.u(16)
	rec.links = d.u(16)
	rec.flags = d.u(16)
	rec.lsn = d.u(64)
	rec.base = 0 if d.chance(50) else d.int(1, (1 << 64) - 1)
	rec.next_instance = d.u(16)
	rec.number = d.int(0, (1 << 48) - 1)
	rec.usn = d.u(16)
	room = rec.room() - 24
	if room < 0:
		raise Discard()
	# Favour used sizes around sector ends.
	if d.chance(40):
		usa_off, first = rec.header_len()
		sect = d.uni(1, size // 512)
		want = sect * 512 + d.uni(-16, 16)
		n = want - first - 24 - 8
		n = max(0, min(room, n))
	else:
		n = d.int(0, room)
	value = d.blobnz(n) if d.chance(70) else d.blob(n)
	rec.attrs = [ntfs.attr_resident(0x80, value)]
	usa_off, first = rec.header_len()
	if first + len(rec.attrs[0]) + 8 > size or first > size - 24:
		raise Discard()
	rec.slack = d.blob(size)
	end = first + len(rec.attrs[0])
	if d.chance(15):
		rec.used = d.int(end + 4, size)
	return rec, value


def describe(rec, value, torn):
	return 'size=%d usa=%r sig=%r used=%d value=%dB usn=%d torn=%r short=%r' % (rec.size, rec.header_len()[0], rec.sig, rec.used_real, len(value), rec.usn, sorted(torn), rec.short)


def t_segment(d, r):
	rec, value = gen_record(d)
	raw, plain, end = rec.build()
	nsect = rec.size // 512
	torn = {}
	if d.chance(60):
		for _ in range(d.uni(1, 2)):
			s = d.uni(0, nsect - 1)
			w = d.pick((0, 1, 2, 3))
			usn = rec.usn
			bad = {0: usn ^ 1, 1: (usn + 1) & 0xFFFF, 2: usn ^ 0x100, 3: d.u(16)}[w]
			if bad != usn:
				torn[s] = bad
	buf = bytearray(raw)
	for s, v in torn.items():
		struct.pack_into('<H', buf, (s + 1) * 512 - 2, v)
	suggested = d.pick((None, 7, 123456))
	used = rec.used_real
	must_fail = any(s * 512 < used for s in torn)
	r.label('torn-used', must_fail)
	r.label('torn-unused', bool(torn) and not must_fail)
	if torn or end > 510:
		r.nontrivial(rec.size, rec.header_len(), rec.sig, used, value, rec.usn, tuple(sorted(torn.items())), rec.slack)
	r.sample(describe(rec, value, torn))
	if must_fail:
		raises(MFT.FileRecordSegmentException, MFT.FileRecordSegment, 'torn record (%s)' % describe(rec, value, torn), bytes(buf), suggested_mft_number=suggested)
		return
	data = bytes(buf) if d.bool() else bytearray(buf)
	frs = MFT.FileRecordSegment(data, suggested_mft_number=suggested)
	check(bytes(data) == bytes(buf), 'the caller\'s buffer was modified')
	eq(frs.is_bad(), rec.sig != b'FILE', 'bad status')
	eq(frs.get_logfile_sequence_number(), rec.lsn, 'LSN')
	eq(frs.get_sequence_number(), rec.seq, 'sequence number')
	eq(frs.get_reference_count(), rec.links, 'reference count')
	eq(frs.get_flags(), rec.flags, 'flags')
	eq(frs.is_in_use(), rec.flags & 1 == 1, 'in-use state')
	eq(frs.get_first_free_byte_offset(), used, 'used size')
	eq(frs.get_file_record_segment_size(), rec.size, 'record size')
	eq(frs.get_first_attribute_offset(), rec.first, 'first attribute offset')
	eq(frs.get_base_file_record_segment(), rec.base, 'base reference')
	eq(frs.is_base_file_record_segment(), rec.base == 0, 'base state')
	eq(frs.get_next_attribute_instance(), rec.next_instance, 'next instance')
	eq(frs.get_master_file_table_number(), suggested if rec.header_len()[0] < 48 else rec.number, 'record number')
	attrs = list(frs.attributes())
	eq(len(attrs), 1, 'attribute count')
	eq(bytes(attrs[0].value), value, 'attribute value')
	slack = frs.get_slack()
	want = bytearray(plain[end + 4:])
	got = bytearray(slack.value)
	eq(len(got), len(want), 'slack length')
	if torn:
		# Bytes at the ends of unused sectors from the torn one on have no trustworthy value.
		for s in range(min(torn), nsect):
			for p in ((s + 1) * 512 - 2, (s + 1) * 512 - 1):
				if p >= end + 4:
					got[p - end - 4] = want[p - end - 4] = 0
	eq(bytes(got), bytes(want), 'slack bytes')


def t_unprotected(d, r):
	"""Records taken from log data carry no applied protection."""
	rec, value = gen_record(d)
	raw, plain, end = rec.build()
	frs = MFT.FileRecordSegment(plain, False)
	attrs = list(frs.attributes())
	eq(len(attrs), 1, 'attribute count')
	eq(bytes(attrs[0].value), value, 'attribute value')
	eq(frs.get_sequence_number(), rec.seq, 'sequence number')
	r.nontrivial(rec.size, value, rec.header_len())
	r.sample('unprotected ' + describe(rec, value, ()))


def t_segment_reject(d, r):
	rec, value = gen_record(d)
	raw, plain, end = rec.build()
	buf = bytearray(raw)
	size = rec.size
	usa_off, first = rec.header_len()
	k = d.uni(0, 9)
	if k == 9:
		# An array in another sector than the first one, consistent otherwise.
		rec = ntfs.Record(size=4096, usa_offset=d.int(512, 1000), seq=d.u(16), usn=d.u(16), number=d.u(32), attrs=[ntfs.attr_resident(0x80, d.blobnz(d.int(0, 500)))])
		buf = bytearray(rec.build()[0])
		what = 'USA at %d (in another sector)' % rec.usa_offset
	elif k == 0:
		sig = d.bytes(4)
		if sig in (b'FILE', b'BAAD', b'CHKD'):
			raise Discard()
		buf[0:4] = sig
		what = 'signature %r' % sig
		exc = MFT.FileRecordSegmentSignatureException
	elif k == 1:
		v = d.pick((d.int(0, 41), d.int(507, 0xFFFF)))
		struct.pack_into('<H', buf, 4, v)
		what = 'USA offset %d' % v
	elif k == 2:
		v = d.u(16)
		if v == size // 512 + 1:
			raise Discard()
		struct.pack_into('<H', buf, 6, v)
		what = 'USA size %d' % v
	elif k == 3:
		v = d.pick((0, 512, 2048, 1023, 4095, 8192, d.u(32), size + 1, 4096 if size == 1024 else 2048))
		if v in (1024, 4096) and v <= size:
			raise Discard()
		struct.pack_into('<L', buf, 28, v)
		what = 'declared size %d' % v
	elif k == 4:
		v = d.pick((d.int(0, 41), d.int(size + 1, 0xFFFFFFFF), size + 1, 41))
		struct.pack_into('<L', buf, 24, v)
		what = 'used size %d' % v
	elif k == 5:
		v = first + d.uni(1, 7)
		struct.pack_into('<H', buf, 20, v)
		what = 'unaligned first attribute offset %d' % v
	elif k == 6:
		v = d.pick((d.int(size - 23, 0xFFFF), (size - 16) & ~7, 0xFFF8))
		if v <= size - 24:
			raise Discard()
		struct.pack_into('<H', buf, 20, v)
		what = 'first attribute offset %d beyond the record' % v
	elif k == 7:
		v = d.int(0, usa_off + 2 * (size // 512 + 1) - 1)
		struct.pack_into('<H', buf, 20, v)
		what = 'first attribute offset %d before the end of the USA' % v
	else:
		n = d.pick((0, 1, 512, 1023, 1025, 2048, 4095, 4097, 8192))
		buf = (buf * 9)[:n]
		what = 'buffer of %d bytes' % n
	r.nontrivial(k, what, rec.size)
	r.label('field-%d' % k)
	r.sample(what)
	raises(MFT.FileRecordSegmentException, MFT.FileRecordSegment, what, bytes(buf))
	if k == 0:
		raises(MFT.FileRecordSegmentSignatureException, MFT.FileRecordSegment, what, bytes(buf))


def gen_index(d):
	size = d.pick((1024, 2048, 4096, 4096, 8192, 1536))
	n = size // 512
	usa_off = 40 if d.chance(70) else d.int(40, 506)
	if usa_off + 2 * (n + 1) > 500 and usa_off != 40:
		usa_off = d.int(40, 480 - 2 * n)
	body = b''
	entries = []
	first = (usa_off + 2 * (n + 1) + 7) & ~7
	total = d.int(0, size - first - 16 - 8) & ~7
	while total >= 32:
		ln = d.int(16, min(total - 16, 700)) & ~7
		entries.append(ntfs.index_entry(d.u(64), d.blobnz(ln)))
		total -= ln + 16
	end = ntfs.index_end()
	usn = d.u(16)
	slack = d.blob(size)
	raw, plain, e = ntfs.index_buffer(size, entries + [end], vcn=d.u(64), lsn=d.u(64), usn=usn, usa_offset=usa_off, slack=slack)
	return size, usn, raw, plain, e, len(entries)


def t_index(d, r):
	size, usn, raw, plain, e, cnt = gen_index(d)
	buf = bytearray(raw)
	torn = set()
	if d.chance(50):
		for _ in range(d.uni(1, 2)):
			s = d.uni(0, size // 512 - 1)
			bad = d.pick((usn ^ 1, (usn + 1) & 0xFFFF, d.u(16)))
			if bad != usn:
				struct.pack_into('<H', buf, (s + 1) * 512 - 2, bad)
				torn.add(s)
	r.nontrivial(size, usn, plain, tuple(torn))
	r.label('torn', bool(torn))
	r.sample('index buffer size=%d entries=%d torn=%r' % (size, cnt, sorted(torn)))
	res = Attributes.VerifyAndUnprotectIndexSectors(bytearray(buf))
	if torn:
		check(res is None, 'torn index buffer accepted')
	else:
		check(res is not None, 'intact index buffer rejected')
		eq(bytes(res), plain, 'index buffer bytes')
		ib = Attributes.IndexBuffer(res)
		eq(ib.get_logfile_sequence_number(), struct.unpack_from('<Q', plain, 8)[0], 'index LSN')
		eq(ib.get_this_block(), struct.unpack_from('<Q', plain, 16)[0], 'index block')


def t_index_reject(d, r):
	size, usn, raw, plain, e, cnt = gen_index(d)
	buf = bytearray(raw)
	k = d.uni(0, 4)
	if k == 4:
		# An array in another sector than the first one, consistent otherwise.
		off = d.int(512, 1000)
		size = 4096
		buf = bytearray(ntfs.index_buffer(size, [ntfs.index_entry(d.u(64), d.blobnz(d.int(16, 300))), ntfs.index_end()], usn=d.u(16), usa_offset=off)[0])
		what = 'USA at %d (in another sector)' % off
	elif k == 0:
		sig = d.bytes(4)
		if sig == b'INDX':
			raise Discard()
		buf[0:4] = sig
		what = 'signature %r' % sig
	elif k == 1:
		v = d.pick((d.int(0, 39), d.int(507, 0xFFFF)))
		struct.pack_into('<H', buf, 4, v)
		what = 'USA offset %d' % v
	elif k == 2:
		v = d.u(16)
		if v == size // 512 + 1:
			raise Discard()
		struct.pack_into('<H', buf, 6, v)
		what = 'USA size %d' % v
	else:
		n = d.pick((0, 1, 512, size - 1, size - 512, size + 512, size + 1))
		buf = (buf + buf)[:n]
		what = 'buffer of %d bytes instead of %d' % (n, size)
	r.nontrivial(k, what, size)
	r.sample(what)
	check(Attributes.VerifyAndUnprotectIndexSectors(bytearray(buf)) is None, 'invalid index buffer accepted: ' + what)


TESTS = [
	Test('segment', t_segment, 192000, shards=4, qsec=25),
	Test('unprotected', t_unprotected, 24000, shards=1, qsec=15),
	Test('segment_reject', t_segment_reject, 96000, shards=2, qsec=20),
	Test('index', t_index, 64000, shards=2, qsec=20),
	Test('index_reject', t_index_reject, 48000, shards=1, qsec=20),
]
