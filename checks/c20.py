"""C20: distributed link tracking log."""
import struct, uuid
from datetime import datetime
from checks import Test
from vlib.engine import *
from vlib import ntfs
from dfir_ntfs import MoveTable as MT

RULE = ('A case writes a tracking log (sector size 512 or 4096, given or guessed, any number of full and partly used sectors, any field values, truncation at any byte) and compares the header, footers and '
	'every entry field with what was written. Non-trivial: two or more used entries. Distinct by content.')
SIG = bytes.fromhex('ECA74366FEEFD111B2AE00C04FB9386D')
G = datetime(1582, 10, 15)


def guid(d):
	k = d.uni(0, 4)
	if k == 0:
		return d.blob(16)
	b = bytearray(d.blob(16))
	if k >= 2:
		# A time-based identifier.
		t = d.int(0x1B21DD213814000, 0x1F21DD213814000) if d.chance(80) else d.u(60)
		b[0:8] = struct.pack('<LHH', t & 0xFFFFFFFF, (t >> 32) & 0xFFFF, (t >> 48) | 0x1000)
		b[8] = 0x80 | (b[8] & 0x3F)
	else:
		b[7] = (b[7] & 0x0F) | (d.uni(0, 15) << 4)
	return bytes(b)


def gtime(raw):
	"""100 ns since 1582 for a version 1 identifier, else None."""
	lo, mid, hi = struct.unpack('<LHH', raw[:8])
	if raw[8] & 0xC0 != 0x80 or hi >> 12 != 1:
		return None
	return lo | mid << 32 | (hi & 0xFFF) << 48


def machine(d):
	k = d.uni(0, 4)
	if k <= 1:
		name = d.name(0, 15, ('abcdefgh-0123', 'DESKTOP-XYZ')).encode()
	elif k == 2:
		name = d.blobnz(d.int(0, 16))
	elif k == 3:
		name = d.blobnz(16)
	else:
		name = b'\x81\x8d' + b'a' * d.int(0, 10)
	raw = name
	if len(raw) < 16:
		raw += b'\x00' + d.blob(15 - len(raw))
	return name, raw


def check_machine(got, name, what):
	s1 = name.decode('cp866')
	try:
		s2 = name.decode('windows-1252')
	except UnicodeDecodeError:
		s2 = None
	if s2 is None or s1 == s2:
		eq(got, s1, what)
	else:
		eq(got, '"%s" (cp-866), "%s" (windows-1252)' % (s1, s2), what)


def entry(d, typ, idx):
	e = {'next': d.u(32), 'prev': d.u(32), 'type': typ, 'idx': idx, 'u16': d.u(32), 'oid': guid(d), 'dv': guid(d), 'do': guid(d), 'bv': guid(d), 'bo': guid(d), 'ts': d.pick((0, 0xFFFFFFFF, 30000000, d.u(32))), 'u120': d.u(32)}
	if d.chance(40):
		# Identifiers are often the same.
		a, b = d.pick((('do', 'bo'), ('oid', 'do'), ('oid', 'bo'), ('dv', 'bv'), ('dv', 'do'), ('oid', 'dv')))
		e[a] = e[b]
		if d.bool():
			e['dv'], e['do'] = e['bv'], e['bo']
	e['mid'], mraw = machine(d)
	raw = struct.pack('<LLLLL', e['next'], e['prev'], typ, idx, e['u16']) + e['oid'] + e['dv'] + e['do'] + mraw + e['bv'] + e['bo'] + struct.pack('<LL', e['ts'], e['u120'])
	assert len(raw) == 124
	return e, raw


def check_entry(g, e, what):
	eq((g.get_next_log_entry_index(), g.get_previous_log_entry_index(), g.get_log_entry_type(), g.get_log_entry_index(), g.get_unknown_16(), g.get_unknown_120()), (e['next'], e['prev'], e['type'], e['idx'], e['u16'], e['u120']), what + ' numbers')
	U = lambda b: uuid.UUID(bytes_le=b)
	eq((g.get_object_id(), g.get_droid(), g.get_birth_droid()), (U(e['oid']), (U(e['dv']), U(e['do'])), (U(e['bv']), U(e['bo']))), what + ' identifiers')
	eq(g.get_machine_id_raw(), e['mid'], what + ' machine')
	check_machine(g.get_machine_id(), e['mid'], what + ' machine text')
	lo, hi = g.get_timestamp()
	check(ntfs.time_ok(lo, e['ts'] << 32) and ntfs.time_ok(hi, e['ts'] << 32 | 0xFFFFFFFF), '%s time range %r %r for %d', what, lo, hi, e['ts'])
	for got, raw, n in zip(g.get_guid_timestamps(), (e['oid'], e['do'], e['bo']), ('object', 'droid', 'birth')):
		t = gtime(raw)
		if t is None:
			eq(got, None, what + ' identifier time ' + n)
		else:
			check(ntfs.time_ok(got, t, G), '%s %s identifier time %r for %d', what, n, got, t)


def t_log(d, r):
	ss = d.pick((512, 4096))
	per = (ss - 16) // 124
	nsec = d.int(0, 6) if ss == 512 else d.int(0, 3)
	if d.chance(1):
		nsec = d.int(100, 1100) if ss == 512 else d.int(20, 300)
		d = d.sub()
	h = {'u16': d.u(32), 'fl': d.u(32) if d.bool() else d.uni(0, 3), 'u24': d.u(32), 'lo': d.u(32), 'hi': d.u(32), 'fs': d.u(32), 'vol': guid(d), 'u32': d.u(64), 't40': d.u(64), 't48': d.u(64), 'rest': [d.u(32) for _ in range(9)]}
	h['mid'], mraw = machine(d)
	hdr = SIG + struct.pack('<LLLLLL', h['u16'], h['fl'], h['u24'], h['lo'], h['hi'], h['fs']) + mraw + h['vol'] + struct.pack('<QQQ', h['u32'], h['t40'], h['t48']) + struct.pack('<9L', *h['rest'])
	data = hdr.ljust(ss, b'\x00')
	used, allent, foots = [], [], []
	idx = d.int(0, 1000)
	fill = d.pick((100, 100, 60, 0))
	tail = d.int(0, per) if fill == 100 else 0
	for s in range(nsec):
		sec = b''
		for k in range(per):
			typ = 2 if d.chance(fill) and not (s == nsec - 1 and k >= per - tail) else 1
			e, raw = entry(d, typ, idx)
			idx += 1
			sec += raw
			allent.append(e)
			if typ == 2:
				used.append((len(data) + k * 124, e))
		f = (d.u(32), d.u(32), d.blob(8))
		foots.append(f)
		sec = sec.ljust(ss - 16, b'\x00') + struct.pack('<LL', f[0], f[1]) + f[2]
		data += sec
	cut = len(data)
	if d.chance(25) and nsec:
		cut = d.int(ss, len(data))
		if ss == 4096 and cut % ss == 512:
			cut += 1  # A rest of exactly 512 bytes is read as a small sector, which gives true entries too.
	img = ntfs.ROFile(data[:cut])
	full = (cut - ss) // ss
	explicit = d.bool()
	if not explicit and ss == 4096 and cut < 528:
		explicit = True
	p = MT.MoveTableParser(img, ss) if explicit else MT.MoveTableParser(img)
	if not explicit and nsec == 0 and ss == 512:
		pass
	eq(p.sector_size, ss, 'sector size')
	g = p.get_header()
	eq((g.get_signature(), g.get_unknown_16(), g.get_flags(), g.is_log_flushed(), g.get_unknown_24(), tuple(g.get_expansion_data())), (SIG, h['u16'], h['fl'], h['fl'] & 1 == 1, h['u24'], (h['lo'], h['hi'], h['fs'])), 'header')
	x = g.get_extended_header()
	check_machine(x.machine_id, h['mid'], 'header machine')
	eq(tuple(x)[1:], (uuid.UUID(bytes_le=h['vol']), h['u32'], h['t40'], h['t48']) + tuple(h['rest']), 'extended header')
	for rep in range(2):
		got = list(p.log_entries())
		want = [e for o, e in used if o < (full + 1) * ss]
		eq(len(got), len(want), 'number of entries')
		for i, (a, b) in enumerate(zip(got, want)):
			if i < 12 or i >= len(want) - 2 or i % 16 == 0:
				check_entry(a, b, 'entry %d' % i)
	secs = list(p.log_sectors())
	eq(len(secs), full, 'number of sectors')
	for s, f in zip(secs, foots):
		ft = s.get_footer()
		eq((ft.get_lowest_log_entry_index_present(), ft.get_next_log_entry_index(), ft.get_unused()), f, 'footer')
		eq(len(list(s.log_entries())), per, 'entries in a sector')
	if len(want) >= 2:
		r.nontrivial(ss, nsec, hashed(data))
	r.label('guessed', not explicit)
	r.label('truncated', cut != len(data))
	r.label('4096', ss == 4096)
	r.sample('sector=%d sectors=%d used=%d cut=%d' % (ss, nsec, len(used), cut))


def hashed(b):
	import hashlib
	return hashlib.blake2b(b, digest_size=8).hexdigest()


def t_bad(d, r):
	ss = d.pick((512, 4096))
	hdr = (SIG + d.blob(116)).ljust(ss, b'\x00')
	k = d.uni(0, 3)
	if k == 0:
		b = bytearray(hdr)
		o = d.uni(0, 15)
		b[o] ^= d.int(1, 255)
		raises(ValueError, MT.MoveTableParser(ntfs.ROFile(bytes(b)), ss).get_header, 'signature')
		what = 'signature byte %d' % o
	elif k == 1:
		n = d.int(0, ss - 1)
		if n == 512:
			n = 511
		raises(ValueError, MT.MoveTableParser(ntfs.ROFile(hdr[:n]), ss).get_header, 'truncated header')
		what = 'header of %d bytes' % n
	elif k == 2:
		n = d.int(1, 10000)
		if n in (512, 4096):
			n += 1
		p = MT.MoveTableParser(ntfs.ROFile(hdr + bytes(20000)), n)
		raises(ValueError, p.get_header, 'sector size %d' % n)
		eq(list(p.log_entries()), [], 'entries with an invalid sector size')
		what = 'sector size %d' % n
	else:
		typ = d.pick((0, 3, 0xFFFFFFFF, d.int(3, 0xFFFFFFFF)))
		good, bad = entry(d, 2, 1), entry(d, typ, 2)
		sec = (good[1] + bad[1] + entry(d, 2, 3)[1]).ljust(ss, b'\x00')
		it = MT.MoveTableParser(ntfs.ROFile(hdr + sec), ss).log_entries()
		check_entry(next(it), good[0], 'entry before')
		raises(NotImplementedError, lambda: next(it), 'entry type %d' % typ)
		n = d.int(0, 300)
		if n != 124:
			raises(ValueError, MT.LogEntry, 'entry of %d bytes' % n, bytes(n))
		what = 'entry type %d' % typ
	r.nontrivial(what, ss)
	r.sample(what)


TESTS = [
	Test('log', t_log, 25000, shards=5, qsec=30),
	Test('refused', t_bad, 20000, shards=2, qsec=20),
]
