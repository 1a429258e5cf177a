"""C13: change journal."""
import struct
from checks import Test
from vlib.engine import *
from vlib.sparse import Sparse
from vlib import ntfs, usn
from dfir_ntfs import USN

RULE = ('A case writes a journal from generated records (versions 2-4), zero gaps from 8 bytes to several read buffers, garbage, damaged records and a cut end, and compares every field of every reported record '
	'with what was written. Inputs in which damaged or garbage bytes happen to form a complete record are discarded. Non-trivial: two or more records with a gap, garbage or damage between them. Distinct by journal hash.')


def cmp_rec(got, w):
	what = 'record (version %d, USN %d)' % (w.v, w.usn)
	eq((got.get_major_version(), got.get_minor_version()), (w.v, w.minor), 'version of ' + what)
	eq(got.get_record_length(), len(w.bytes()), 'length of ' + what)
	eq(got.get_file_reference_number(), w.ref, 'reference of ' + what)
	eq(got.get_parent_file_reference_number(), w.parent, 'parent of ' + what)
	eq(got.get_usn(), w.usn, 'USN of ' + what)
	eq(got.get_reason(), w.reason, 'reason of ' + what)
	eq(got.get_source_info(), w.source, 'source of ' + what)
	if w.v in (2, 3):
		check(type(got) is USN.USN_RECORD_V2_OR_V3, 'type of %s', what)
		check(ntfs.time_ok(got.get_timestamp(), w.ts), 'timestamp of %s: %r for %d', what, got.get_timestamp(), w.ts)
		eq(got.get_security_id(), w.sec, 'security identifier of ' + what)
		eq(got.get_file_attributes(), w.fattr, 'attributes of ' + what)
		eq(got.get_file_name(), ntfs.text_expected(w.name), 'name of ' + what)
		eq(got.get_file_name_length(), len(ntfs.u16(w.name)), 'name length of ' + what)
	else:
		check(type(got) is USN.USN_RECORD_V4, 'type of %s', what)
		eq((got.get_remaining_extents(), got.get_number_of_extents(), got.get_extent_size()), (w.remaining, len(w.extents), w.extent_size), 'extent fields of ' + what)
		eq([x if type(x) is tuple else bytes(x) for x in got.extents()], list(w.extents), 'extents of ' + what)


def gen_journal(d, nitems, make=usn.Rec, last=11):
	out = bytearray()
	recs = []
	starts = []
	events = []
	for _ in range(nitems):
		k = d.uni(0, last)
		if k <= 5:
			w = make(d)
			b = w.bytes()
			starts.append((len(out), len(out) + len(b)))
			recs.append(w)
			out += b
			events.append('R%d' % w.v)
		elif k == 6:
			out += b'\x00' * (8 * d.int(1, 80))
			events.append('z')
		elif k == 7:
			# A large sparse region; its end is anywhere relative to a read buffer.
			out += b'\x00' * (8 * d.int(900, 4000))
			events.append('Z')
		elif k == 8:
			out += b'\x00' * (-len(out) % 4096)
			events.append('page')
		elif k == 9:
			out += d.blob(8 * d.int(1, 60))
			events.append('G')
		elif k == 10:
			b = bytearray(usn.Rec(d).bytes())
			how = d.uni(0, 4)
			if how == 0:
				struct.pack_into('<L', b, 0, d.pick((0, 7, 56, len(b) + 1, len(b) - 4, 0xFFFFFFF8)))
			elif how == 1:
				struct.pack_into('<H', b, 4, d.pick((0, 1, 5, 0xFFFF)))
			elif how == 2:
				b[0:8] = b'\x00' * 8
			elif how == 3:
				b = b[8 * d.int(1, len(b) // 8):]
			else:
				b[0:4] = b'\xFF' * 4
			out += b
			events.append('D%d' % how)
		else:
			# Align the next record to just before a read buffer boundary.
			n = 8192 - (len(out) % 8192) - 8 * d.int(1, 30)
			if n > 0:
				out += b'\x00' * (n & ~7)
			events.append('edge')
	end = d.uni(0, 3)
	cut = None
	if end == 1:
		b = usn.Rec(d).bytes()
		out += b[:d.int(1, len(b) - 1)]
		events.append('cut')
	elif end == 2:
		out += b'\x00' * d.int(1, 20000)
	data = bytes(out)
	inside = set()
	for s, e in starts:
		inside.update(range(s, e, 8))
	for pos in range(0, len(data), 8):
		if data[pos:pos + 8] != b'\x00' * 8 and pos not in inside and usn.plausible(data, pos):
			raise Discard()
	return data, recs, events


def odd_rec(d):
	w = usn.Rec(d)
	if d.chance(30):
		w.name = d.odd_name(1, 40)
	return w


def t_journal(d, r):
	if d.chance(1):
		data, recs, events = gen_journal(d.sub(), d.int(300, 3000), odd_rec, 6)
	else:
		data, recs, events = gen_journal(d, d.int(1, 14), odd_rec)
	p = USN.ChangeJournalParser(ntfs.ROFile(data))
	got = list(p.usn_records())
	eq([g.get_usn() for g in got], [w.usn for w in recs], 'reported records (%s)' % ' '.join(events))
	for g, w in zip(got, recs):
		cmp_rec(g, w)
	if len(recs) >= 2 and len(events) > len(recs):
		r.nontrivial(hash(data))
	for e in set(x[0] for x in events):
		r.label(e)
	r.sample(' '.join(events[:40]))


def t_far(d, r):
	"""Records after very large sparse regions."""
	size = d.pick(((1 << 28), (1 << 28), (1 << 31), (1 << 32))) + 8 * d.int(200, 1 << 20)
	f = Sparse(size)
	offs = sorted(set(d.pick((size - 8 * d.int(160, 4000), d.int(0, size // 8 - 160) * 8, (1 << 28) - 8 * d.int(0, 40), (1 << 28) + 8 * d.int(100, 140))) for _ in range(d.int(2, 8))))
	recs, end = [], 0
	for o in offs:
		if o < end:
			continue
		w = odd_rec(d)
		b = w.bytes()
		if o + len(b) > size:
			continue
		f.put(o, b)
		end = o + len(b) + 8
		recs.append(w)
	got = list(USN.ChangeJournalParser(f).usn_records())
	eq([g.get_usn() for g in got], [w.usn for w in recs], 'reported records (%d bytes)' % size)
	for g, w in zip(got, recs):
		cmp_rec(g, w)
	r.nontrivial(size, offs)
	r.sample('%d bytes, records at %s' % (size, offs))


def t_shared(d, r):
	"""The file position may be moved by others between records, and the iteration restarted."""
	data, recs, events = gen_journal(d, d.int(2, 10))
	f = ntfs.ROFile(data)
	p = USN.ChangeJournalParser(f)
	its = [p.usn_records(), p.usn_records()]
	seen = [[], []]
	for _ in range(3 * len(recs) + 2):
		k = d.uni(0, 1)
		f.seek(d.int(0, len(data)))
		x = next(its[k], None)
		if x is not None:
			seen[k].append(x.get_usn())
	for s in seen:
		eq(s, [w.usn for w in recs][:len(s)], 'interleaved iteration')
	if len(recs) >= 2:
		r.nontrivial(hash(data))
	r.sample(' '.join(events))


def t_record(d, r):
	w = odd_rec(d)
	raw = w.bytes()
	cmp_rec(USN.GetUsnRecord(raw + d.blob(d.pick((0, 9)))), w)
	cut = d.int(0, len(raw) - 1)
	raises((ValueError, NotImplementedError), USN.GetUsnRecord, 'record cut to %d of %d bytes' % (cut, len(raw)), raw[:cut])
	b = bytearray(raw)
	struct.pack_into('<H', b, 4, d.pick((0, 1, 5, 6, 0xFFFF)))
	raises((ValueError, NotImplementedError), USN.GetUsnRecord, 'record with an unknown version', bytes(b))
	b = bytearray(raw)
	struct.pack_into('<L', b, 0, d.pick((0, 4, len(raw) + 8, len(raw) - 1, 7)))
	raises((ValueError, NotImplementedError), USN.GetUsnRecord, 'record with a wrong length', bytes(b))
	raises(ValueError, USN.USN_RECORD_V2_OR_V3, 'version %d record taken as another version' % w.v, raw + bytes(80), w.v != 3)
	if w.v != 4:
		raises(ValueError, USN.USN_RECORD_V4, 'version %d record taken as version 4' % w.v, raw + bytes(80))
	if w.v in (2, 3):
		b = bytearray(raw)
		base = 56 if w.v == 2 else 72
		struct.pack_into('<HH', b, base, 510, len(raw) - d.int(0, 20))
		raises(ValueError, USN.GetUsnRecord(bytes(b)).get_file_name, 'name outside the record')
	r.nontrivial(raw)
	r.sample('version %d %r' % (w.v, w.name[:20]))


def t_codes(d, r):
	for _ in range(8):
		v = d.u(32) if d.bool() else (1 << d.uni(0, 31)) | (1 << d.uni(0, 31))
		eq(USN.ResolveReasonCodes(v), usn.resolve(v, usn.REASONS, 'USN_REASON_'), 'reason 0x%x' % v)
		eq(USN.ResolveSourceCodes(v), usn.resolve(v, usn.SOURCES, 'USN_SOURCE_'), 'source 0x%x' % v)
	r.nontrivial(v)
	r.sample(hex(v))


TESTS = [
	Test('far', t_far, 16, 200, shards=4, qsec=25),
	Test('journal', t_journal, 6000, shards=4, qsec=30),
	Test('shared', t_shared, 1000, shards=1, qsec=30),
	Test('record', t_record, 20000, shards=2, qsec=20),
	Test('codes', t_codes, 6000, shards=1, qsec=20),
]
