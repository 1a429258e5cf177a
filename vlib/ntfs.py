"""Independent writer for NTFS structures (no code shared with the parser under test)."""
import struct, io
from datetime import datetime, timedelta

SECTOR = 512


def u16(s):
	return s.encode('utf-16le', 'surrogatepass')


def pad8(b, fill=b'\x00'):
	return b + fill * (-len(b) % 8)


# --- time -------------------------------------------------------------------

def filetime_expected(ts):
	"""The exact moment as (datetime floor to microsecond, 100 ns remainder) or None."""
	us = ts // 10
	try:
		return datetime(1601, 1, 1) + timedelta(microseconds=us)
	except OverflowError:
		return None


def time_exact_ok(got, ts, epoch=datetime(1601, 1, 1)):
	"""The decoded value is within one microsecond of the exact moment, and exact for a whole number of microseconds."""
	try:
		base = epoch + timedelta(microseconds=ts // 10)
	except OverflowError:
		return got is None
	if got == base:
		return True
	if got is None:
		# Rounding up can leave the calendar only at its very last microsecond.
		return ts % 10 != 0 and base >= datetime(9999, 12, 31, 23, 59, 59, 999999)
	return ts % 10 != 0 and got - base == timedelta(microseconds=1)


def time_float(ts, epoch=datetime(1601, 1, 1)):
	"""The known finding C09-float: the value computed through a 64-bit floating-point number of microseconds."""
	try:
		return epoch + timedelta(microseconds=ts / 10)
	except OverflowError:
		return None


def time_ok(got, ts, epoch=datetime(1601, 1, 1)):
	"""As above, tolerating the rounding described by the known finding C09-float."""
	return time_exact_ok(got, ts, epoch) or got == time_float(ts, epoch)


FT_2000 = 125911584000000000
FT_2030 = 135379296000000000


def gen_ft(d):
	"""A FILETIME in the plausible era, or (rarely) something odd."""
	k = d.uni(0, 9)
	if k <= 6:
		return d.int(FT_2000, FT_2030)
	if k == 7:
		return d.int(FT_2000 // 10, FT_2030 // 10) * 10
	if k == 8:
		return d.int(0, 2650467743999999999)
	return d.int(0, (1 << 64) - 1)


# --- references ---------------------------------------------------------------

def ref(number, seq):
	return number | (seq << 48)


# --- run lists ------------------------------------------------------------------

def signed_width(v):
	n = 1
	while not (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))):
		n += 1
	return n


def enc_runs(runs, d=None, terminate=True):
	"""Encode [(lcn or None, length)] as mapping pairs. With `d`, widths may be larger than minimal."""
	out = b''
	cur = 0
	for lcn, length in runs:
		lw = signed_width(length)
		if d is not None and d.chance(25):
			lw = d.uni(lw, 8)
		if lcn is None:
			out += bytes([lw]) + length.to_bytes(lw, 'little', signed=True)
		else:
			delta = lcn - cur
			ow = signed_width(delta)
			if d is not None and d.chance(25):
				ow = d.uni(ow, 8)
			cur = lcn
			out += bytes([lw | (ow << 4)]) + length.to_bytes(lw, 'little', signed=True) + delta.to_bytes(ow, 'little', signed=True)
	if terminate:
		out += b'\x00'
	return out


def gen_runs(d, n, total=1 << 20, sparse=True, first_zero=False):
	"""n runs; locations anywhere below `total` (may repeat; fine for decoding)."""
	runs = []
	for i in range(n):
		length = d.int(1, 300) if d.chance(80) else d.int(1, 1 << 40)
		if sparse and d.chance(25):
			runs.append((None, length))
		else:
			lcn = d.int(1, total)
			if d.chance(10):
				lcn = d.int(1, (1 << 62))
			if i == 0 and first_zero and d.chance(10):
				lcn = 0
			runs.append((lcn, length))
	return runs


# --- attributes ---------------------------------------------------------------

def attr_resident(type_code, value, name=None, instance=0, flags=0, indexed=0, d=None, gap=0, tail=0):
	"""A resident attribute record."""
	nm = u16(name) if name else b''
	name_off = 24 + (gap & ~1 if nm else 0)
	val_off = (name_off + len(nm) + 7) & ~7 if nm else 24
	if not nm and gap:
		val_off = 24 + ((gap + 7) & ~7)
	buf = bytearray(val_off)
	buf[name_off:name_off + len(nm)] = nm
	if len(buf) < val_off:
		buf += b'\x00' * (val_off - len(buf))
	buf = buf[:val_off] + value
	buf += b'\x00' * (-len(buf) % 8) + b'\x00' * (tail * 8)
	length = len(buf)
	buf[0:16] = struct.pack('<LLBBHHH', type_code, length, 0, len(nm) // 2, name_off if (nm or gap == 0) else 0, flags, instance)
	buf[16:24] = struct.pack('<LHBB', len(value), val_off, indexed, 0)
	return bytes(buf)


def attr_nonresident(type_code, runs, lowest=0, highest=None, alloc=None, size=0, vdl=None, name=None, instance=0, flags=0, cu=0, pairs=None, gap=0, tail=0):
	nm = u16(name) if name else b''
	total = sum(l for _, l in runs)
	if highest is None:
		highest = max(lowest, lowest + total - 1)
	if vdl is None:
		vdl = size
	if alloc is None:
		alloc = size
	if pairs is None:
		pairs = enc_runs(runs)
	base = 72 if cu else 64
	name_off = base + (gap & ~1)
	mp_off = (name_off + len(nm) + 7) & ~7
	buf = bytearray(mp_off)
	buf[name_off:name_off + len(nm)] = nm
	buf = buf[:mp_off] + pairs
	buf += b'\x00' * (-len(buf) % 8) + b'\x00' * (tail * 8)
	length = len(buf)
	buf[0:16] = struct.pack('<LLBBHHH', type_code, length, 1, len(nm) // 2, name_off, flags, instance)
	buf[16:64] = struct.pack('<QQHB5sqqq', lowest, highest, mp_off, cu, b'\x00' * 5, alloc, size, vdl)
	return bytes(buf)


# --- file record segments ------------------------------------------------------

def protect(buf, usa_offset, usn):
	"""Apply update sequence protection to a bytearray (in place)."""
	n = len(buf) // SECTOR
	seq = struct.pack('<H', usn)
	usa = bytearray(seq)
	for i in range(n):
		pos = (i + 1) * SECTOR - 2
		usa += buf[pos:pos + 2]
		buf[pos:pos + 2] = seq
	buf[usa_offset:usa_offset + len(usa)] = usa
	return buf


class Record(object):
	"""A file record segment to be written."""

	def __init__(self, number=0, seq=1, flags=1, base=0, links=1, lsn=0, attrs=(), size=1024, usn=1, sig=b'FILE', short=False, next_instance=0, slack=b'', usa_offset=None, end_fake=True, used=None, first_gap=0):
		self.__dict__.update(number=number, seq=seq, flags=flags, base=base, links=links, lsn=lsn, attrs=list(attrs), size=size, usn=usn, sig=sig, short=short, next_instance=next_instance, slack=slack, usa_offset=usa_offset, end_fake=end_fake, used=used, first_gap=first_gap)

	def header_len(self):
		usa_off = self.usa_offset if self.usa_offset is not None else (42 if self.short else 48)
		n = self.size // SECTOR
		return usa_off, (usa_off + 2 * (n + 1) + 7 + self.first_gap * 8) & ~7

	def room(self):
		return self.size - self.header_len()[1] - 8

	def build(self):
		"""Returns (protected bytes, plain bytes, offset of the end marker)."""
		usa_off, first = self.header_len()
		body = b''.join(self.attrs)
		end = first + len(body)
		assert end + 8 <= self.size, 'record overflow'
		buf = bytearray(self.size)
		buf[first:end] = body
		tail = struct.pack('<LL', 0xFFFFFFFF, 0x11477982 if self.end_fake else 0)
		buf[end:end + 8] = tail
		used = self.used if self.used is not None else end + 8
		s = self.slack[:self.size - end - 8]
		buf[end + 8:end + 8 + len(s)] = s
		buf[0:4] = self.sig
		struct.pack_into('<HHQHHHHLLQH', buf, 4, usa_off, self.size // SECTOR + 1, self.lsn, self.seq, self.links, first, self.flags, used, self.size, self.base, self.next_instance)
		if usa_off >= 48:
			struct.pack_into('<HL', buf, 42, (self.number >> 32) & 0xFFFF, self.number & 0xFFFFFFFF)
		self.end = end
		self.first = first
		self.used_real = used
		plain = bytearray(buf)
		protect(buf, usa_off, self.usn)
		# The array itself is part of the record on disk.
		plain[usa_off:usa_off + 2 * (self.size // SECTOR + 1)] = buf[usa_off:usa_off + 2 * (self.size // SECTOR + 1)]
		return bytes(buf), bytes(plain), end


# --- attribute values -----------------------------------------------------------

def si_value(c, m, e, a, fattr=0x20, maxver=0, ver=0, cls=0, owner=0, sec=0, quota=0, usn=0, length=72):
	return struct.pack('<QQQQLLLLLLQQ', c, m, e, a, fattr, maxver, ver, cls, owner, sec, quota, usn)[:length]


def fn_value(parent, c, m, e, a, alloc=0, size=0, fattr=0x20, ea=0, ea2=0, name='a', flags=1):
	nm = u16(name)
	return struct.pack('<QQQQQqqLHHBB', parent, c, m, e, a, alloc, size, fattr, ea, ea2, len(nm) // 2, flags) + nm


def volinfo_value(major=3, minor=1, flags=0):
	return struct.pack('<QBBH', 0, major, minor, flags)


class FN(object):
	def __init__(self, parent, name, flags=1, c=FT_2000, m=FT_2000, e=FT_2000, a=FT_2000, alloc=0, size=0, fattr=0x20, ea=0, ea2=0):
		self.__dict__.update(parent=parent, name=name, flags=flags, c=c, m=m, e=e, a=a, alloc=alloc, size=size, fattr=fattr, ea=ea, ea2=ea2)

	def value(self):
		return fn_value(self.parent, self.c, self.m, self.e, self.a, self.alloc, self.size, self.fattr, self.ea, self.ea2, self.name, self.flags)


def gen_fn(d, parent, name, flags=1):
	return FN(parent, name, flags, gen_ft(d), gen_ft(d), gen_ft(d), gen_ft(d), d.int(0, (1 << 63) - 1), d.int(0, (1 << 63) - 1), d.u(32), d.u(16), d.u(16))


def text_expected(name):
	"""What a name with lone surrogates decodes to."""
	return u16(name).decode('utf-16le', errors='replace')


def attrlist_value(entries):
	"""entries: (type, name, instance, lowest_vcn, reference)."""
	out = b''
	for t, name, inst, vcn, r in entries:
		nm = u16(name) if name else b''
		ln = (26 + len(nm) + 7) & ~7
		e = struct.pack('<LHBBQQH', t, ln, len(nm) // 2, 26, vcn, r, inst) + nm
		out += e.ljust(ln, b'\x00')
	return out


# --- indexes -----------------------------------------------------------------

def index_entry(reference, attr, flags=0, vcn=None):
	body = struct.pack('<QHHHH', reference, 0, len(attr), flags | (1 if vcn is not None else 0), 0) + attr
	body += b'\x00' * (-len(body) % 8)
	if vcn is not None:
		body += struct.pack('<Q', vcn)
	body = bytearray(body)
	struct.pack_into('<H', body, 8, len(body))
	return bytes(body)


def index_end(vcn=None):
	return index_entry(0, b'', 2, vcn)


def index_root_value(entries, buf_size=4096, blocks=1, type_code=0x30, rule=1, large=False, tail=b''):
	body = b''.join(entries)
	return struct.pack('<LLLL', type_code, rule, buf_size, blocks) + struct.pack('<LLLB3s', 16, 16 + len(body), 16 + len(body), 1 if large else 0, b'\x00' * 3) + body + tail


def index_buffer(size, entries, vcn=0, lsn=0, usn=1, usa_offset=40, slack=b'', flags=0, entries_offset=None, available=None):
	buf = bytearray(size)
	n = size // SECTOR
	first = (usa_offset + 2 * (n + 1) + 7) & ~7
	if entries_offset is not None:
		first = entries_offset
	body = b''.join(entries)
	end = first + len(body)
	assert end <= size, 'index buffer overflow'
	buf[first:end] = body
	s = slack[:size - end]
	buf[end:end + len(s)] = s
	buf[0:4] = b'INDX'
	struct.pack_into('<HHQQ', buf, 4, usa_offset, n + 1, lsn, vcn)
	struct.pack_into('<LLLB', buf, 24, first - 24, end - 24, size - 24 if available is None else available, flags)
	plain = bytearray(buf)
	protect(buf, usa_offset, usn)
	plain[usa_offset:usa_offset + 2 * (n + 1)] = buf[usa_offset:usa_offset + 2 * (n + 1)]
	return bytes(buf), bytes(plain), end


# --- file table -----------------------------------------------------------------

class Table(object):
	"""A set of records making up a file table."""

	def __init__(self, size=1024):
		self.size = size
		self.records = {}
		self.raw = {}

	def add(self, rec):
		rec.size = self.size
		self.records[rec.number] = rec
		return rec

	def system(self, data_attr=None, root_seq=5):
		"""The minimum: $MFT (0), $Volume (3) and the root directory (5)."""
		ft = FT_2000
		self.add(Record(0, 1, 1, attrs=[attr_resident(0x10, si_value(ft, ft, ft, ft)), attr_resident(0x30, fn_value(ref(5, root_seq), ft, ft, ft, ft, name='$MFT', flags=3))] + ([data_attr] if data_attr else [])))
		self.add(Record(3, 3, 1, attrs=[attr_resident(0x10, si_value(ft, ft, ft, ft)), attr_resident(0x30, fn_value(ref(5, root_seq), ft, ft, ft, ft, name='$Volume', flags=3)), attr_resident(0x60, u16('vol')), attr_resident(0x70, volinfo_value())]))
		self.add(Record(5, root_seq, 3, attrs=[attr_resident(0x10, si_value(ft, ft, ft, ft)), attr_resident(0x30, fn_value(ref(5, root_seq), ft, ft, ft, ft, name='.', flags=3))]))

	def build(self, count=None):
		n = max(max(self.records, default=0), max(self.raw, default=0)) + 1
		if count is not None:
			n = max(n, count)
		out = bytearray(n * self.size)
		for num, rec in self.records.items():
			out[num * self.size:(num + 1) * self.size] = rec.build()[0]
		for num, raw in self.raw.items():
			out[num * self.size:(num + 1) * self.size] = raw
		return bytes(out)


class ROFile(io.BytesIO):
	"""An in-memory file which refuses modification."""

	def write(self, *a):
		raise AssertionError('the source was written to')

	def truncate(self, *a):
		raise AssertionError('the source was truncated')

	def writelines(self, *a):
		raise AssertionError('the source was written to')


# --- volumes -----------------------------------------------------------------------

def boot_sector(bps=512, spc=8, total=1 << 20, mft=4, mirr=2, frs=-10, idx=1, serial=0x1234, bootcode=True):
	b = bytearray(512)
	if bootcode:
		b[0:3] = b'\xEB\x52\x90'
		b[510:512] = b'\x55\xAA'
	b[3:11] = b'NTFS    '
	b[11:13] = struct.pack('<H', bps)
	b[13] = spc & 0xFF
	struct.pack_into('<QQQ', b, 40, total, mft, mirr)
	struct.pack_into('<b', b, 64, frs)
	struct.pack_into('<b', b, 68, idx)
	struct.pack_into('<Q', b, 72, serial)
	return bytes(b)


def split_runs(d, clusters, pool, maxfrag):
	"""Lay `clusters` clusters out over the free ones in pool (list of lcns, consumed); returns runs and the lcn list."""
	lcns = []
	runs = []
	left = clusters
	frags = d.uni(1, maxfrag) if maxfrag < 20 else maxfrag
	most = None if maxfrag < 20 else max(1, clusters * 2 // maxfrag)
	while left > 0:
		n = left if frags <= 1 else d.uni(1, left if most is None else min(most, left))
		frags -= 1
		# Take n consecutive clusters from somewhere in the pool.
		start = d.uni(0, max(0, len(pool) - n))
		take = 1
		while take < n and start + take < len(pool) and pool[start + take] == pool[start] + take:
			take += 1
		got = pool[start:start + take]
		del pool[start:start + take]
		if runs and runs[-1][0] is not None and runs[-1][0] + runs[-1][1] == got[0] and d.bool():
			runs[-1] = (runs[-1][0], runs[-1][1] + take)
		else:
			runs.append((got[0], take))
		lcns += got
		left -= take
		if frags <= 0:
			frags = 1
	return runs, lcns
