"""C14: log file records."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs, lfs
from dfir_ntfs import LogFile

RULE = ('A case simulates a log: a generated history of record writes (sizes chosen around the page ends), flushes, moves of fast pages and checkpoints over a small circular area that wraps many times, then a crash between or inside '
	'any page write (torn page), and/or torn pages in the area. The reported records must be exactly those which the readable pages still hold and which the page headers, restart areas, record order and record links lead to, with exact headers '
	'and client data. Non-trivial: the log wrapped, or a crash or damage happened, with ten or more records. Distinct by image hash.')

VERSIONS = ((1, 1), (1, 1), (2, 0), (3, 0))


def gen_size(d, log):
	"""A client data length (a multiple of 8), biased to page boundaries."""
	cap = lfs.PAGE - log.data_off
	room = lfs.PAGE - log.cur.used - log.header
	if room < 0:
		room = cap - log.header
	k = d.uni(0, 9)
	if k <= 3:
		n = 8 * d.int(4, 40)
	elif k <= 5:
		# Leave 0..8 units of 8 bytes at the end of this page.
		n = room - 8 * d.uni(0, 9)
	elif k == 6:
		# End near the end of a later page.
		n = room + cap * d.uni(1, 2) - 8 * d.uni(0, 8)
	elif k == 7:
		n = room + 8 * d.uni(1, 6)
	elif k == 8:
		n = 8 * d.int(4, 1200)
	else:
		n = room
	limit = (log.npages - log.first - 2) * cap
	n = max(8, min(n, limit // 8 * 8))
	return n


def gen_log(d, nops, checkpoints=True, maxarea=7):
	version = d.pick(VERSIONS)
	header = d.pick((48, 48, 56, 72))
	data_off = d.pick((64, 64, 72, 128))
	area = d.int(4, maxarea)
	lap = d.pick((1, 2, 5, 100)) if d.chance(80) else d.pick((1 << 16, 1 << 31, 1 << 32, d.int(1 << 20, 1 << 36))) - d.int(1, 3)
	log = lfs.Log(version, area, header=header, data_off=data_off, lap=lap, start=d.uni(0, area - 1), dax=d.chance(12))
	if d.bool():
		log.bits -= d.uni(0, min(10, log.bits - 20))
	chains = {}
	ops = []
	for _ in range(nops):
		k = d.uni(0, 11)
		if k <= 7:
			n = gen_size(d, log)
			tid = d.uni(0, 3)
			client = d.pickw(((9, 0), (1, 1)))
			rtype = 1
			data = d.blob(n)
			if n >= 8:
				data = bytes([d.uni(0, 0x25), 0, d.uni(0, 0x25), 0]) + data[4:]
				if data[0] == 0x1C:
					data = b'\x00' + data[1:]
			prev = chains.get((client, tid), 0)
			undo = prev
			if checkpoints and n >= 64 and d.chance(12):
				rtype = 2
				known = [r.lsn for r in log.recs] + [0, 0]
				data = struct.pack('<LLQQQQQ', d.uni(0, 2), 0, *(d.pick(known) for _ in range(5))) + data[48:]
				if n >= 84:
					data = data[:80] + struct.pack('<L', 4096) + data[84:]
			elif d.chance(3):
				rtype = 7
			if d.chance(10):
				prev = 0
			if d.chance(10):
				undo = d.pick([r.lsn for r in log.recs[-20:]] or [0])
			r = lfs.Rec(data, rtype, tid, client, prev, undo, d.uni(0, 7))
			log.append(r)
			if d.chance(6):
				chains.pop((client, tid), None)
			else:
				chains[(client, tid)] = r.lsn
			ops.append('w%d' % n)
		elif k <= 9:
			log.flush()
			if d.chance(80):
				log.apply()
			ops.append('f')
		elif k == 10 and log.version != (1, 1):
			log.flush()
			log.move()
			if d.chance(80):
				log.apply()
			ops.append('m')
		else:
			ops.append('-')
	return log, ops


def gen_restart(d, log, lsns):
	"""Two restart pages (at least one valid) and the LSNs they name."""
	known = list(lsns) or [0]
	pages = []
	roots = set()
	bad = d.uni(0, 5)
	for i in range(2):
		cl = [(d.pick(known), d.pick(known), d.uni(0, 9), 'NTFS')]
		if d.chance(10):
			cl.append((d.pick(known), 0, 1, 'Other'))
		cur = d.pick(known)
		chk = d.pick((0, d.pick(known)))
		p = lfs.restart_page(log.version, log.bits, log.file_size, log.header, log.data_off, cur, cl, chk, sig=d.pick((b'RSTR', b'RSTR', b'CHKD')), dax=d.chance(10))
		if bad == i:
			k = d.uni(0, 2)
			if k == 0:
				p = p[:512 * d.uni(1, 7)] + b'\x00' * 512 + p[512:]
				p = p[:4096]
			elif k == 1:
				p = d.blob(4) + p[4:]
				if p[:4] in (b'RSTR', b'CHKD', b'BAAD'):
					p = b'XXXX' + p[4:]
			else:
				p = b'\xff' * 4096
			b = bytearray(p)
			b[510:512] = bytes([b[510] ^ 0x55, b[511]])
			p = bytes(b)
		else:
			roots.update((cur, chk))
			for c in cl:
				roots.update(c[:2])
		pages.append(p)
	return pages[0], pages[1], roots


def judge(lf, log, roots, recover, what):
	req, allowed, eff = log.expected(roots, recover)
	if recover:
		lf.prepare_for_writes()
		if log.version == (1, 1):
			lf.apply_tail_page()
		else:
			lf.apply_fast_pages()
	lf.collect_lsns()
	lf.sort_lsns()
	got = list(lf.lsns)
	eq(got, sorted(set(got)), '%s: LSNs in order, each once' % what)
	missing = sorted(req - set(got))
	check(not missing, '%s: records not found: %s of %d (%d reported)', what, ['%x' % x for x in missing[:5]], len(req), len(got))
	extra = sorted(set(got) - allowed)
	check(not extra, '%s: records reported which are not there: %s', what, ['%x' % x for x in extra[:5]])
	groups = {}
	for x in got:
		r = log.by_lsn[x]
		groups.setdefault(r.client, []).append(x)
		pn, off = lf.lsn_to_offset(x)
		h = lf.get_log_record_page_by_number(pn).get_log_record_at_offset(off, log.header)
		eq((h.get_this_lsn(), h.get_client_previous_lsn(), h.get_client_undo_next_lsn(), h.get_client_data_length(), h.get_client_id(), h.get_record_type(), h.get_transaction_id(), h.get_flags()),
			(r.lsn, r.prev, r.undo, len(r.data), r.client, r.rtype, r.tid, r.flags), '%s: header of record %x' % (what, x))
		cd = lf.get_client_data(x)
		eq((cd.lsn, cd.record_type, cd.transaction_id), (r.lsn, r.rtype, r.tid), '%s: client data identity of record %x' % (what, x))
		eq(bytes(cd.buf), log.stored(r, eff), '%s: client data of record %x' % (what, x))
	eq(dict(lf.lsns_sorted), groups, '%s: records by client' % what)
	if recover:
		lf.discard_changes()
	return groups, eff, set(got)


def judge_parse(image, log, roots, recover, what):
	f = ntfs.ROFile(image)
	lf = LogFile.LogFileParser(f)
	groups, eff, found = judge(lf, log, roots, recover, what)
	want = []
	for c in groups:
		for x in groups[c]:
			r = log.by_lsn[x]
			st = log.stored(r, eff)
			if r.rtype == 1 and len(st) >= 32 or r.rtype == 2 and len(st) >= 64:
				want.append((c, x, r.rtype, st))
	out = []
	lf2 = LogFile.LogFileParser(f)
	for x in lf2.parse_ntfs_records(recover):
		t = 1 if type(x) is LogFile.NTFSLogRecord else 2
		out.append((x.lsn, t, bytes(x.buf)))
	# The order of clients is not specified.
	left = list(out)
	for c in groups:
		mine = [w[1:] for w in want if w[0] == c]
		i = 0
		for w in mine:
			while i < len(out) and out[i][0] != w[0]:
				i += 1
			check(i < len(out), '%s: record %x of client %d not reported, or out of order', what, w[0], c)
			eq(out[i][1:], w[1:], '%s: record %x' % (what, w[0]))
	eq(len(out), len(want), '%s: number of reported records' % what)
	return found


def finish(d, r, log, ops, torn, what):
	lsns = [x.lsn for x in log.recs]
	if log.lookalike():
		raise Discard()
	p1, p2, roots = gen_restart(d, log, lsns[-40:])
	image = log.image(p1, p2)
	recover = not d.chance(15)
	found = judge_parse(image, log, roots, recover, what + ('' if recover else ' without recovery'))
	wrapped = log.pages[-1].lap > log.pages[0].lap
	if len(log.recs) >= 10 and (wrapped or torn):
		r.nontrivial(hash(image))
	r.label('wrapped', wrapped)
	r.label('torn', torn)
	r.label('v%d' % log.version[0])
	r.label('found10', len(found) >= 10)
	r.label('overwritten', len(found) < len(log.recs))
	r.sample('version %d.%d, %d pages, %d records, %s' % (log.version + (log.npages, len(log.recs), ' '.join(ops)[:200])))


def t_history(d, r):
	log, ops = gen_log(d, d.int(3, 60))
	log.flush()
	torn = False
	if log.writes and d.bool():
		n = d.int(0, len(log.writes))
		tear = None
		if n and d.bool():
			tear = d.int(1, 7)
			torn = True
		log.apply(n, tear)
		ops.append('crash')
	else:
		log.apply()
	finish(d, r, log, ops, torn, 'log')


def t_long(d, r):
	"""Long histories of small records, many wraps."""
	log, ops = gen_log(d, d.int(100, 300), maxarea=12)
	log.flush()
	log.apply()
	finish(d, r, log, ops, False, 'long log')


def t_damage(d, r):
	"""Torn pages anywhere: only what is on them is lost."""
	log, ops = gen_log(d, d.int(10, 60))
	log.flush()
	log.apply()
	nums = sorted(set(s.number for _, s, _ in log.disk.values() if s))
	torn = False
	for _ in range(d.int(1, 3)):
		if not nums:
			break
		n = d.pick(nums)
		torn = True
		for k in list(log.disk):
			b, s, kind = log.disk[k]
			if s is not None and s.number == n:
				b = bytearray(b)
				how = d.uni(0, 3)
				if how == 0:
					b[512 * d.uni(0, 7) + 510] ^= 1 + d.uni(0, 254)
				elif how == 1:
					b[0:4] = b'\x00\x00\x00\x00'
				elif how == 2:
					b = bytearray(b'\x00' * 4096)
				else:
					b[6] ^= 0x20
				if log.dax:
					b[100] ^= 0xFF
				log.disk[k] = (bytes(b), None, None)
	finish(d, r, log, ops, torn, 'damaged log')


def t_arith(d, r):
	bits = d.int(20, 58)
	log = lfs.Log((1, 1), 8)
	log.bits = 64 - (log.file_size // 8).bit_length()
	img = log.image(lfs.restart_page((1, 1), bits, clients=[(0, 0, 0, 'NTFS')]), b'\xff' * 4096)
	lf = LogFile.LogFileParser(ntfs.ROFile(img))
	offbits = 64 - bits
	for _ in range(8):
		off8 = d.int(0, (1 << offbits) - 1)
		lap = d.int(0, (1 << bits) - 1)
		lsn = (lap << offbits) | off8
		eq(lf.lsn_to_offset(lsn), (off8 * 8 // 4096, off8 * 8 % 4096), 'position of LSN %x (%d bits)' % (lsn, bits))
		eq(lf.lsn_to_seqnum(lsn), lap, 'sequence number of LSN %x (%d bits)' % (lsn, bits))
		eq(lf.offset_to_lsn(off8 * 8 // 4096, off8 * 8 % 4096, lap), lsn, 'LSN of a position')
	r.nontrivial(bits, off8, lap)
	r.sample('%d bits, LSN %x' % (bits, lsn))


def t_restart(d, r):
	ver = d.pick(((1, 1), (2, 0), (3, 0)))
	vals = []
	pages = []
	for i in range(2):
		cl = [(d.u(64), d.u(64), d.u(16), d.name(1, 64)) for _ in range(d.int(0, 4))]
		v = dict(version=ver, bits=d.int(3, 63), file_size=d.int(0, 1 << 40), header=d.pick((48, 56, 64, 1000)), data_off=8 * d.int(8, 100), current=d.u(64), clients=cl, chkdsk=d.u(64),
			sig=d.pick((b'RSTR', b'CHKD')), flags=d.u(16), area_off=8 * d.int(6, 40), array_off=8 * d.int(8, 20), last_len=d.u(32), revision=d.u(32), usn=d.int(1, 0xFFFF), dax=d.chance(20))
		vals.append(v)
		pages.append(lfs.restart_page(**v))

	def area_eq(rp, v, what):
		eq((rp.get_major_version(), rp.get_minor_version(), rp.get_chkdsk_lsn(), rp.get_system_page_size(), rp.get_log_page_size(), rp.get_restart_offset()), v['version'] + (v['chkdsk'], 4096, 4096, v['area_off']), what)
		ra = rp.get_restart_area()
		eq((ra.get_current_lsn(), ra.get_log_clients(), ra.get_flags(), ra.get_sequence_number_bits(), ra.get_client_array_offset(), ra.get_file_size(), ra.get_last_lsn_data_length(), ra.get_record_header_length(), ra.get_log_page_data_offset(), ra.get_revision_number()),
			(v['current'], len(v['clients']), v['flags'], v['bits'], v['array_off'], v['file_size'], v['last_len'], v['header'], v['data_off'], v['revision']), what + ', area')
		eq([(c.get_oldest_lsn(), c.get_client_restart_lsn(), c.get_sequence_number(), c.get_client_name()) for c in ra.clients()], v['clients'], what + ', clients')
	for v, p in zip(vals, pages):
		area_eq(LogFile.RestartPage(p), v, 'restart page')
	dead = d.uni(0, 3)
	ps = list(pages)
	for i in range(2):
		if dead & (1 << i):
			b = bytearray(ps[i])
			b[512 * d.uni(0, 7) + 510] ^= 1 + d.uni(0, 254)
			ps[i] = bytes(b)
			if vals[i]['dax']:
				ps[i] = b'\x00' * 4096
	img = b''.join(ps) + b'\xff' * 4096 * 4
	if dead == 3:
		raises(LogFile.LogFileException, LogFile.LogFileParser, 'both restart pages torn', ntfs.ROFile(img))
	else:
		lf = LogFile.LogFileParser(ntfs.ROFile(img))
		eq((lf.restart_page_1 is None, lf.restart_page_2 is None), (bool(dead & 1), bool(dead & 2)), 'restart pages in use')
		v = vals[1] if dead & 1 else vals[0]
		eq((lf.log_version, lf.sequence_number_bits, lf.record_header_length, lf.log_page_data_offset), (ver, v['bits'], v['header'], v['data_off']), 'settings in use')
	raises(LogFile.LogFileException, LogFile.LogFileParser, 'truncated file', ntfs.ROFile(img[:d.int(0, 8191)]))
	raises(LogFile.EmptyLogFileException, LogFile.LogFileParser, 'empty log', ntfs.ROFile(b'\xff' * 8192 + img[8192:]))
	other = dict(vals[1])
	other['version'] = (2, 0) if ver == (1, 1) else (1, 1)
	raises(LogFile.LogFileException, LogFile.LogFileParser, 'restart pages of different versions', ntfs.ROFile(pages[0] + lfs.restart_page(**other) + img[8192:]))
	r.nontrivial(img)
	r.sample('version %r dead %d' % (ver, dead))


def t_protect(d, r):
	n = d.pick((2, 4, 8, 8, 16))
	body = bytearray(d.blob(512 * n))
	usa_off = 2 * d.int(4, 200)
	if usa_off + 2 * (n + 1) > 510 + 510:
		raise Discard()
	usn = d.pick((0, 1, 0xFFFF, d.u(16)))
	size = 2 * (n + 1)
	# The array itself has to lie within the first sector, before its last two bytes.
	if usa_off + size > 510:
		usa_off = 510 - size & ~1
	p = lfs.protect(body, usa_off, usn)
	want = bytearray(body)
	want[4:8] = p[4:8]
	want[usa_off:usa_off + size] = p[usa_off:usa_off + size]
	if p[usa_off + 4:usa_off + 8] == b'CRC4':
		raise Discard()
	got, end = LogFile.UnprotectSectors(bytearray(p))
	eq(end, usa_off + size, 'end of the array')
	eq(bytes(got), bytes(want), 'unprotected page')
	t = bytearray(p)
	k = d.uni(0, n - 1)
	t[512 * k + 510 + d.uni(0, 1)] ^= 1 + d.uni(0, 254)
	raises(LogFile.UpdateSequenceArrayException, LogFile.UnprotectSectors, 'sector %d of %d torn' % (k, n), t)
	r.nontrivial(p)
	r.sample('%d sectors, array at %d' % (n, usa_off))
	if n < 4:
		return
	q = lfs.protect_crc(body, usa_off, d.bytes(4))
	got, end = LogFile.UnprotectSectors(bytearray(q))
	eq(bytes(got), q, 'checksum protected page')


def t_page(d, r):
	"""A single log page: exact header fields and the record at any offset; broken headers are refused."""
	n = d.pick((2, 8, 8))
	body = bytearray(d.blob(512 * n))
	sig = d.pick((b'RCRD', b'RCRD', b'CHKD', b'BAAD'))
	body[0:4] = sig
	lsn, flags, count, pos, free, end = d.u(64), d.u(32), d.u(16), d.u(16), d.u(16), d.u(64)
	struct.pack_into('<QLHHHH', body, 8, lsn, flags, count, pos, free, d.u(16))
	struct.pack_into('<Q', body, 32, end)
	size = 2 * (n + 1)
	usa_off = d.pick((40, 40, 60, 62))
	data_off = (usa_off + size + 7) // 8 * 8 + 8 * d.int(0, 4)
	h = d.pick((48, 48, 56, 72))
	off = data_off + 8 * d.int(0, (512 * n - data_off - h) // 8) if d.bool() else data_off
	rec = lfs.Rec(d.blob(d.int(0, 40)), d.u(32), d.u(32), d.u(32), d.u(64), d.u(64), d.u(16))
	rec.lsn = d.u(64)
	raw = rec.header(h)
	body[off:off + len(raw)] = raw
	p = lfs.protect(body, usa_off, d.u(16))
	if p[usa_off + 4:usa_off + 8] == b'CRC4':
		raise Discard()
	want = bytearray(body)
	want[4:8] = p[4:8]
	want[usa_off:usa_off + size] = p[usa_off:usa_off + size]
	num = d.u(20)
	g = LogFile.LogRecordPage(p, num, data_off)
	eq(bytes(g.buf), bytes(want), 'page contents')
	eq((g.get_last_lsn(), g.get_flags(), g.get_page_count(), g.get_page_position(), g.get_next_record_offset(), g.page_number, g.data_offset), (lsn, flags, count, pos, free, num, data_off), 'page header fields')
	eq(g.get_last_end_lsn(), end, 'last end LSN')
	eq(g.get_file_offset_11(), lsn - (1 << 64) if lsn >> 63 else lsn, 'tail copy offset')
	eq(g.get_file_offset_2x(), struct.unpack('<L', want[60:64])[0] if usa_off + size <= 60 else None, 'fast page offset')
	x = g.get_log_record_at_offset(off, h)
	eq((x.get_this_lsn(), x.get_client_previous_lsn(), x.get_client_undo_next_lsn(), x.get_client_data_length(), x.get_client_id(), x.get_record_type(), x.get_transaction_id(), x.get_flags()),
		(rec.lsn, rec.prev, rec.undo, len(rec.data), rec.client, rec.rtype, rec.tid, rec.flags), 'record header at %d' % off)
	raises(LogFile.LogFileException, g.get_log_record_at_offset, 'record before the data area', data_off - 8 * d.uni(1, data_off // 8), h)
	raises(LogFile.LogFileException, g.get_log_record_at_offset, 'record header cut by the end of the page', 512 * n - d.uni(1, h - 1), h)
	raises(NotImplementedError, g.get_log_record_at_offset, 'short record header', off, 8 * d.uni(0, 5))
	raises(LogFile.LogFileException, g.get_log_record_at_offset, 'unaligned record header length', off, h + d.uni(1, 7))
	raises(NotImplementedError, LogFile.LogRecordPage, 'bad data offset', p, num, d.pick((0, data_off + d.uni(1, 7), d.uni(0, usa_off + size - 1))))
	bad = bytearray(body)
	bad[d.uni(0, 3)] ^= 1 << d.uni(0, 7)
	raises(LogFile.LogRecordPageException, LogFile.LogRecordPage, 'bad signature', lfs.protect(bad, usa_off, d.u(16)), num, data_off)
	r.nontrivial(p)
	r.sample('%d sectors, record at %d, header %d' % (n, off, h))


TESTS = [
	Test('page', t_page, 3000, shards=1),
	Test('history', t_history, 24000, shards=8, qsec=40, tsec=1500),
	Test('long', t_long, 1500, shards=8, qsec=30, tsec=1200),
	Test('damage', t_damage, 8000, shards=8, qsec=30, tsec=1200),
	Test('arith', t_arith, 2000, shards=1),
	Test('restart', t_restart, 800, shards=2),
	Test('protect', t_protect, 1500, shards=2),
]
