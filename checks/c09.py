"""C09: timestamp conversion."""
import uuid, struct
from datetime import datetime, timedelta
from fractions import Fraction
from checks import Test
from vlib.engine import *
from vlib import ntfs, findings
from dfir_ntfs import Attributes, WSL, USN

RULE = ('A case is a batch of 64-bit timestamp values (uniform, boundary-biased, and neighbours of calendar ends and of 2^53 microseconds), converted by every entry point and compared with exact integer '
	'arithmetic; the order of neighbouring conversions is checked too. Non-trivial: at least one value inside the calendar. Distinct by the batch.')

EPOCHS = {'filetime': datetime(1601, 1, 1), 'guid': datetime(1582, 10, 15)}
LAST = {k: ((datetime(9999, 12, 31, 23, 59, 59, 999999) - e) // timedelta(microseconds=1)) * 10 + 9 for k, e in EPOCHS.items()}


def gen_ts(d, last):
	k = d.uni(0, 7)
	if k <= 2:
		return d.int(0, last)
	if k == 3:
		return d.int(0, (1 << 64) - 1)
	if k == 4:
		return max(0, min((1 << 64) - 1, d.pick((last, 0, 10 << 53, 10 << 54, 1 << 63, (1 << 64) - 1, ntfs.FT_2000, 116444736000000000)) + d.int(-40, 40)))
	if k == 5:
		return d.int(0, last // 10) * 10
	return d.int(ntfs.FT_2000 // 10, ntfs.FT_2030 // 10) * 10 + d.uni(0, 9)


def judge(got, ts, kind):
	epoch = EPOCHS[kind]
	if ntfs.time_exact_ok(got, ts, epoch):
		return
	# Inside the floating-point range every value is whole: this cannot be the known rounding.
	if ts // 10 >= 1 << 53 and got == ntfs.time_float(ts, epoch) and findings.known('C09-float'):
		return
	raise Violation('%s %d converts to %r, expected %r' % (kind, ts, got, ts <= LAST[kind] and epoch + timedelta(microseconds=ts // 10)))


def t_filetime(d, r):
	kind = d.pick(('filetime', 'guid'))
	fn = Attributes.DecodeFiletime if kind == 'filetime' else Attributes.DecodeGUIDTime
	values = [gen_ts(d, LAST[kind]) for _ in range(12)]
	values += [v + 1 for v in values if v + 1 < 1 << 64]
	values = sorted(set(values))
	prev = None
	inside = False
	for v in values:
		got = fn(v)
		judge(got, v, kind)
		try:
			strict = fn(v, False)
		except (OverflowError, ValueError):
			strict = None
		eq(strict, got, '%s %d with errors enabled' % (kind, v))
		if got is not None:
			inside = True
			check(type(got) is datetime and got.tzinfo is None, '%s %d is %r', kind, v, got)
			if prev is not None:
				check(prev <= got, '%s conversion is not monotonic at %d', kind, v)
			prev = got
	if inside:
		r.nontrivial(kind, tuple(values))
	r.label(kind)
	r.sample('%s %s' % (kind, values[:4]))


def t_entry(d, r):
	"""The same conversions through the structures which store timestamps."""
	vals = [gen_ts(d, LAST['filetime']) for _ in range(4)]
	si = Attributes.StandardInformation(ntfs.si_value(*vals))
	fn = Attributes.FileName(ntfs.fn_value(5, *vals))
	for obj in (si, fn, Attributes.StandardInformationPartial(ntfs.si_value(*vals), 0), Attributes.DuplicatedInformation(ntfs.fn_value(5, *vals), 8)):
		for got, v in zip((obj.get_ctime(), obj.get_mtime(), obj.get_etime(), obj.get_atime()), vals):
			judge(got, v, 'filetime')
	g = d.int(0, (1 << 60) - 1) if d.bool() else gen_ts(d, LAST['guid']) & ((1 << 60) - 1)
	u = uuid.UUID(fields=(g & 0xFFFFFFFF, (g >> 32) & 0xFFFF, (g >> 48) | 0x1000, d.u(8) & 0x3F | 0x80, d.u(8), d.u(48)))
	oid = Attributes.ObjectID(u.bytes_le + d.blob(d.pick((0, 48))))
	eq(oid.get_object_id(), u, 'object identifier')
	judge(oid.get_timestamp(), g, 'guid')
	ver = d.pick((2, 3, 4, 5))
	u2 = uuid.UUID(int=(u.int & ~(0xF << 76)) | (ver << 76))
	eq(Attributes.ObjectID(u2.bytes_le).get_timestamp(), None, 'timestamp of a version %d identifier' % ver)
	r.nontrivial(tuple(vals), g)
	r.sample('%s guid %d' % (vals, g))


def t_unix(d, r):
	inside = False
	vals = []
	prev = None
	for _ in range(8):
		k = d.uni(0, 4)
		last = 253402300799
		s = d.int(0, last) if k <= 1 else (d.pick((0, last, 1 << 31, 1 << 32, (1 << 64) - 1, 1 << 63, last - 5)) + d.int(-6, 6)) if k == 2 else d.int(0, 4102444800) if k == 3 else d.int(0, (1 << 64) - 1)
		s = max(0, min((1 << 64) - 1, s))
		ns = d.int(0, 999999999) if d.chance(80) else d.u(32)
		vals.append((s, ns))
	last_us = (datetime(9999, 12, 31, 23, 59, 59, 999999) - datetime(1970, 1, 1)) // timedelta(microseconds=1)
	for s, ns in vals:
		exact = Fraction(s) * 1000000 + Fraction(ns, 1000)
		raw = struct.pack('<HHLLLLLLLQQQ', 0, 1, 0o100644, 0, 0, 0, ns, ns, ns, s, s, s)
		lx = WSL.LXATTRB(raw)
		for got in (WSL.DecodeUnixtime(s, ns), lx.get_atime(), lx.get_mtime(), lx.get_chtime()):
			if got is None:
				check(exact > last_us - 1, 'Unix time %d.%09d is reported as invalid', s, ns)
			else:
				inside = True
				us = (got - datetime(1970, 1, 1)) // timedelta(microseconds=1)
				err = abs(us - exact)
				check(err < 1, 'Unix time %d.%09d converts to %r', s, ns, got)
				check(exact < last_us + 1, 'Unix time %d.%09d is outside the calendar, got %r', s, ns, got)
	if inside:
		r.nontrivial(tuple(vals))
	r.sample(vals[:3])


TESTS = [
	Test('filetime', t_filetime, 320000, shards=4, qsec=20),
	Test('entry', t_entry, 80000, shards=2, qsec=20),
	Test('unix', t_unix, 80000, shards=2, qsec=20),
]
