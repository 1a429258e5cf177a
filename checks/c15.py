"""C15: NTFS log records."""
import struct
from checks import Test
from vlib.engine import *
from vlib import ntfs, lfs
from dfir_ntfs import LogFile

RULE = ('A case simulates the NTFS client of a log: attributes are opened, closed and their table slots reused, tables are dumped at checkpoints (with other records between the two dumps), and generated operations refer to the open slots; '
	'the decoded fields, data and resolved targets of every reported record are compared with the simulated state at that point. Non-trivial: at least one target resolved from a dump or a reused slot, or an unresolvable one. Distinct by image hash.')

RES = LogFile.LOGGED_RESIDENT_UPDATES
NAMES = dict(enumerate((
	'Noop', 'CompensationLogRecord', 'InitializeFileRecordSegment', 'DeallocateFileRecordSegment', 'WriteEndOfFileRecordSegment', 'CreateAttribute', 'DeleteAttribute', 'UpdateResidentValue', 'UpdateNonresidentValue',
	'UpdateMappingPairs', 'DeleteDirtyClusters', 'SetNewAttributeSizes', 'AddIndexEntryRoot', 'DeleteIndexEntryRoot', 'AddIndexEntryAllocation', 'DeleteIndexEntryAllocation', 'WriteEndOfIndexBuffer', 'SetIndexEntryVcnRoot',
	'SetIndexEntryVcnAllocation', 'UpdateFileNameRoot', 'UpdateFileNameAllocation', 'SetBitsInNonresidentBitMap', 'ClearBitsInNonresidentBitMap', 'HotFix', 'EndTopLevelAction', 'PrepareTransaction', 'CommitTransaction',
	'ForgetTransaction', 'OpenNonresidentAttribute', 'OpenAttributeTableDump', 'AttributeNamesDump', 'DirtyPageTableDump', 'TransactionTableDump', 'UpdateRecordDataRoot', 'UpdateRecordDataAllocation', 'UpdateRelativeDataIndex',
	'UpdateRelativeDataAllocation', 'ZeroEndOfFileRecord')))
RESIDENT = (2, 3, 4, 5, 6, 7, 9, 0xB, 0xC, 0xD, 0x11, 0x13, 0x21, 0x23, 0x25)
NONRESIDENT = (8, 0xE, 0xF, 0x10, 0x12, 0x14, 0x15, 0x16, 0x22, 0x24)
OTHER = tuple(x for x in range(0x26) if x not in RESIDENT + NONRESIDENT and x not in (0x1C, 0x1D, 0x1E))


class Op(object):
	"""An NTFS log record."""

	def __init__(self, d, redo, undo, redo_data=b'', undo_data=b'', target=0, vcn=None, lcns=None, fill=True):
		self.redo = redo
		self.undo = undo
		self.redo_data = redo_data
		self.undo_data = undo_data
		self.target = target
		self.lcns = lcns if lcns is not None else [d.int(0, 1 << 40) for _ in range(d.uni(0, 3))]
		self.roff = d.u(16)
		self.aoff = d.u(16)
		self.cbo = d.pick((0, d.uni(0, 7), d.u(16)))
		self.tbs = d.pick((2, 8, 0, d.u(16)))
		self.vcn = vcn if vcn is not None else d.pick((d.int(0, 1000), d.int(0, 1 << 48)))
		self.share = bool(redo_data) and redo_data == undo_data and d.bool()
		self.gap = 8 * d.uni(0, 2)
		self.state = None

	def bytes(self):
		off = 32 + 8 * len(self.lcns) + self.gap
		body = bytearray(off)
		ro = uo = 0
		if self.redo_data:
			ro = off
			body += self.redo_data
			body += b'\x00' * (-len(body) % 8)
		if self.undo_data:
			if self.share:
				uo = ro
			else:
				uo = len(body)
				body += self.undo_data
				body += b'\x00' * (-len(body) % 8)
		struct.pack_into('<HHHHHHHHHHHHq', body, 0, self.redo, self.undo, ro, len(self.redo_data), uo, len(self.undo_data), self.target, len(self.lcns), self.roff, self.aoff, self.cbo, self.tbs, self.vcn)
		for i, x in enumerate(self.lcns):
			struct.pack_into('<q', body, 32 + 8 * i, x)
		self.offs = (ro, uo)
		return bytes(body)


def oat_entry(v, ref, alloc=0xFFFFFFFF, lsn=0, atype=0x80):
	if v >= 1:
		return struct.pack('<LLLLQQQ', alloc, 0x1000, atype, 0, ref, lsn, 0)
	return struct.pack('<LLQQLLLLL', alloc, 0, ref, lsn, 0, atype, 0, 0, 0x1000)


class Sim(object):
	"""The open attribute table."""

	def __init__(self, d, v, unknown=False, client=0):
		self.d = d
		self.v = v
		self.unknown = unknown  # The layout of dumps is not known (2.x).
		self.client = client
		self.ever = set()
		self.esize = 40 if v >= 1 else 44
		self.open = {}  # index: (reference, name)
		self.slots = d.int(1, 8)
		self.dumped = None  # The last completed pair of dumps: {index: (reference, name)}
		self.pending = None
		self.logged = {}  # Opened in the log.
		self.uncertain = set()
		self.stale = {}

	def index(self, slot):
		return 24 + self.esize * slot

	def free(self):
		return [self.index(s) for s in range(self.slots) if self.index(s) not in self.open]

	def table(self):
		d = self.d
		used = max([0] + [i for i in self.open]) + self.esize
		b = bytearray(24)
		struct.pack_into('<HHH', b, 0, self.esize, self.slots, len(self.open))
		for s in range(self.slots):
			i = self.index(s)
			if i in self.open and not self.unknown:
				b += oat_entry(self.v, self.open[i][0])
			else:
				b += oat_entry(self.v, d.u(64), alloc=d.uni(0, 100))
		return bytes(b)

	def names(self):
		b = b''
		items = [(i, x[1]) for i, x in self.open.items() if x[1]]
		for k in self.d.perm(len(items)):
			i, n = items[k]
			nm = n.encode('utf-16le')
			b += struct.pack('<HH', i, len(nm)) + nm + b'\x00\x00'
		return b + b'\x00' * 4


ANAMES = ('', '', '$I30', '$J', '$SDS', 'Zone.Identifier', 'a', '\u0416\U0001f600')


def t_history(d, r):
	major = d.pick((0, 0, 1, 1, 1, 2))
	sims = [Sim(d, 1 if major else 0, major >= 2, i) for i in range(2 if d.chance(15) else 1)]
	sim = sims[0]
	cluster = d.pick((4096, 512, 1024, 65536, 131072, 2097152))
	lossy = d.chance(25)  # Some opens and tables do not survive.
	nops = d.int(3, 60)
	torn = d.chance(25)  # Some pages can not be read.
	# Either the whole log survives, or it wraps.
	area = d.pick((40, 40, 5, 8))
	names = ANAMES + tuple(d.name(1, 255, ('abc', '\u4e2d\u6587')) for _ in range(3)) if torn else ANAMES
	log = lfs.Log(d.pick(((1, 1), (2, 0))), area, lap=d.pick((1, 7)))
	ops = {}
	seq = []
	cut = []

	def add(op, state=None, rtype=1, data=None, opened=None):
		b = op.bytes() if op is not None else data
		if op is not None:
			op.state_after = dict(sim.open) if op.redo == 0x1D else sim.open.get(op.target)
			op.truth = sim.open.get(op.target)
			op.checkpoint = pairs
			op.opened = opened
		rec = lfs.Rec(b, rtype, d.u(32), sim.client, 0, 0)
		log.append(rec)
		ops[rec.lsn] = (op, state, rec)
		return rec

	def restart():
		data = struct.pack('<LLQQQQQLLLLqQLLQqQ', major, d.uni(0, 1), *([d.pick([x.lsn for x in log.recs] + [0]) for _ in range(5)] + [d.u(32) for _ in range(4)] + [d.int(0, 1 << 60), d.u(60), cluster, 0, d.u(64), d.int(0, 1 << 60), d.u(60)]))
		data = data[:d.pick((112, 112, 112, 104, 88))]
		add(None, None, 2, data)

	pairs = 0
	restart()
	used_dump = reused = unknown = 0
	# Attributes opened before the first record of the log.
	for s in sims:
		for _ in range(d.uni(0, 4)):
			f = s.free()
			if f:
				s.open[f[0]] = (d.u(64), d.pick(ANAMES))
				s.ever.add(f[0])
	serial = [0]
	for _ in range(nops):
		if len(sims) > 1:
			sim = d.pick(sims)
		ever = sim.ever
		k = d.uni(0, 13)
		if k <= 1 and sim.free():
			i = d.pick(sim.free())
			if i in ever:
				reused += 1
			ever.add(i)
			ref, name = d.u(64), d.pick(names)
			sim.open[i] = (ref, name)
			if not lossy or d.bool():
				add(Op(d, 0x1C, 0, oat_entry(sim.v, ref), name.encode('utf-16le'), i), opened=(ref, name))
			sim.logged[i] = len(log.recs)
		elif k == 2 and sim.open:
			i = d.pick(sorted(sim.open))
			del sim.open[i]
		elif k == 3:
			if not lossy or d.bool():
				add(Op(d, 0x1D, 0, sim.table()))
			sim.pending = dict(sim.open)
			for _ in range(d.uni(0, 2)):
				if sim.open and d.bool():
					i = d.pick(sorted(sim.open))
					use(d, sim, add, i)
			# The names belong to the same moment as the table: nothing is opened or closed between them.
			add(Op(d, 0x1E, 0, sim.names()))
			pairs += 1
		elif k == 4:
			restart()
		elif k <= 8 and sim.open:
			use(d, sim, add, d.pick(sorted(sim.open)))
		elif k == 9:
			use(d, sim, add, 24 + sim.esize * (sim.slots + d.uni(0, 9)))
		elif k <= 11:
			red, und = d.pick(RESIDENT), d.pick(RESIDENT + (0, 0, 1))
			if d.bool():
				red, und = und, red
			rd = d.blob(d.pick((0, d.uni(1, 90), 8)))
			add(Op(d, red, und, rd, rd if d.bool() else d.blob(d.uni(0, 50)), d.u(16)))
		else:
			add(Op(d, d.pick(OTHER), d.pick(OTHER + (0x77,)), d.blob(d.uni(0, 60)), d.blob(d.uni(0, 60)), d.u(16)))
	if not any(x.rtype == 2 for x in log.recs[-40:]):
		restart()
	log.flush()
	log.apply()
	if log.lookalike():
		raise Discard()
	if torn:
		nums = sorted(set(s.number for _, s, _ in log.disk.values() if s))
		for n in [d.pick(nums) for _ in range(d.int(1, 3))]:
			for k in list(log.disk):
				b, s, kind = log.disk[k]
				if s is not None and s.number == n:
					b = bytearray(b)
					b[512 * d.uni(0, 7) + 510] ^= 1 + d.uni(0, 254)
					log.disk[k] = (bytes(b), None, None)
	p = lfs.restart_page(log.version, log.bits, log.file_size, log.header, log.data_off, log.recs[-1].lsn, [(log.recs[0].lsn, log.recs[-1].lsn, 1, 'NTFS')])
	image = log.image(p, p)
	req, allowed, eff = log.expected([log.recs[-1].lsn, log.recs[0].lsn])
	got = list(LogFile.LogFileParser(ntfs.ROFile(image)).parse_ntfs_records(d.bool() or log.version != (1, 1)))
	eq([g.lsn for g in got], [x for c in range(len(sims)) for x in sorted(g.lsn for g in got if ops[g.lsn][2].client == c)] if len(sims) == 1 or got and ops[got[0].lsn][2].client == 0 else
		[x for c in (1, 0) for x in sorted(g.lsn for g in got if ops[g.lsn][2].client == c)], 'order of records')
	seen_restart = any(ops[g.lsn][2].rtype == 2 and len(log.stored(ops[g.lsn][2], eff)) >= 84 for g in got)
	if not seen_restart or torn and any(ops[g.lsn][2].rtype == 2 and len(log.stored(ops[g.lsn][2], eff)) < 84 for g in got):
		raise Discard()
	# Replay the history over the reported records.
	last = None
	for g in got:
		op, state, rec = ops[g.lsn]
		if rec.client != last:
			last = rec.client
			logged, dumped, pending = {}, None, None
			may, mpending = {}, None
		if torn and op is not None:
			# What a slot may resolve to: some records are lost, so it may be outdated, but not what the records there contradict.
			if op.redo == 0x1C:
				may[op.target] = [op.opened]
			elif op.redo == 0x1D:
				mpending = op
			elif op.redo == 0x1E and mpending is not None:
				for i in set(may) | set(mpending.state_after):
					if i not in mpending.state_after:
						may[i] = None  # An entry which was free at that time.
					elif op.checkpoint != mpending.checkpoint:
						may[i] = None  # The table and the names belong together, but this can not be seen.
					elif may.get(i, []) is not None:
						may.setdefault(i, []).append(mpending.state_after[i])
				mpending = None
		if len(log.stored(rec, eff)) != len(rec.data):
			continue
		if rec.rtype == 2:
			cmp_restart(g, rec)
			continue
		what = 'record %x (%s)' % (g.lsn, NAMES.get(op.redo))
		cmp_op(g, op, rec, what)
		if op.redo == 0x1C:
			logged[op.target] = op.state_after
		elif op.redo == 0x1D:
			pending = op.state_after
		elif op.redo == 0x1E:
			# A names dump without its table does not complete a pair.
			dumped = pending
			pending = None
		if op.redo in RESIDENT or op.undo in RESIDENT:
			fs = op.tbs * 512 or 1024
			eq(g.calculate_mft_target_number(), (op.vcn * cluster + op.cbo * 512) // fs, 'target record number of ' + what)
			eq(g.calculate_offset_in_target(), op.aoff + op.roff, 'target offset of ' + what)
		else:
			eq(g.calculate_mft_target_number(), None, 'target record number of ' + what)
			if op.redo in NONRESIDENT or op.undo in NONRESIDENT:
				eq(g.calculate_offset_in_target(), op.vcn * cluster + op.cbo * 512 + op.aoff + op.roff, 'target offset of ' + what)
			else:
				eq(g.calculate_offset_in_target(), None, 'target offset of ' + what)
		t = g.calculate_mft_target_reference_and_name()
		if not (op.redo in NONRESIDENT or op.undo in NONRESIDENT):
			check(t is None, 'target of %s: %r, expected none', what, t)
		else:
			truth = op.truth
			if torn:
				m = may.get(op.target)
				if t is not None and m is not None:
					m = m + [truth]
					check(any((t[0], t[1] or '') == x or t[1] is None and t[0] == x[0] for x in m if x), 'target of %s: slot %d resolved to %r, expected one of %r (or none)', what, op.target, t, m)
				r.label('torn')
				continue
			sure = truth is not None and (op.target in logged or (major < 2 and dumped is not None and op.target in dumped))
			if lossy and t is not None:
				# An outdated entry is possible, but only from the records that are there.
				may = [x for x in (truth, logged.get(op.target), dumped.get(op.target) if dumped is not None and major < 2 else None) if x is not None]
				if dumped is None or op.target in dumped or op.target in logged:
					check((t[0], t[1] or '') in may, 'target of %s: slot %d resolved to %r, expected one of %r', what, op.target, t, may)
				r.label('lossy')
			elif truth is None:
				check(t is None, 'target of %s: slot %d resolved to %r, but it was never open', what, op.target, t)
				unknown += 1
			elif t is None:
				check(not sure, 'target of %s: slot %d not resolved, expected %r', what, op.target, truth)
				unknown += 1
			else:
				check(t[0] == truth[0] and (t[1] or '') == truth[1], 'target of %s: slot %d resolved to %r, expected %r', what, op.target, t, truth)
				if op.target not in logged:
					used_dump += 1
		s = str(g)
		check(str(g.lsn) in s and LogFile.ResolveNTFSOperation(op.redo) in s, 'text of %s: %s', what, s)
	if used_dump or reused or unknown:
		r.nontrivial(hash(image))
	r.label('from dump', used_dump > 0)
	r.label('reused', reused > 0)
	r.label('unknown', unknown > 0)
	r.label('wrapped', log.pages[-1].lap > log.pages[0].lap)
	r.label('major%d' % major)
	r.sample('NTFS version %d, %d records, %d dumps, %d from dumps, %d unknown' % (major, len(got), pairs, used_dump, unknown))


def use(d, sim, add, i):
	red, und = d.pick(NONRESIDENT), d.pick(NONRESIDENT + (0, 0, 1))
	if d.chance(30):
		red, und = und, red
	rd = d.blob(d.pick((0, d.uni(1, 90))))
	add(Op(d, red, und, rd, rd if d.bool() else d.blob(d.uni(0, 40)), i))


def cmp_restart(g, rec):
	b = rec.data
	check(type(g) is LogFile.NTFSRestartArea, 'type of record %x', g.lsn)
	eq((g.get_major_version(), g.get_minor_version(), g.get_start_of_checkpoint_lsn(), g.get_open_attribute_table_lsn(), g.get_attribute_names_lsn(), g.get_dirty_page_table_lsn(), g.get_transaction_table_lsn(),
		g.get_open_attribute_table_length(), g.get_attribute_names_length(), g.get_dirty_page_table_length(), g.get_transaction_table_length()), struct.unpack_from('<LLQQQQQLLLL', b), 'restart area %x' % g.lsn)
	opt = [(72, '<q', 64, g.get_usn_journal_restart_offset), (80, '<Q', 72, g.get_last_lsn), (84, '<L', 80, g.get_bytes_per_cluster), (96, '<Q', 88, g.get_usn_journal_reference), (104, '<q', 96, g.get_usn_base), (112, '<Q', 104, g.get_oldest_lsn)]
	for need, fmt, off, fn in opt:
		eq(fn(), struct.unpack_from(fmt, b, off)[0] if len(b) >= need else None, 'restart area %x, field at %d' % (g.lsn, off))


def cmp_op(g, op, rec, what):
	check(type(g) is LogFile.NTFSLogRecord, 'type of %s', what)
	eq(bytes(g.buf), rec.data, 'bytes of ' + what)
	eq(g.transaction_id, rec.tid, 'transaction of ' + what)
	eq((g.get_redo_operation(), g.get_undo_operation()), (op.redo, op.undo), 'operations of ' + what)
	eq((g.get_redo_offset(), g.get_redo_length(), g.get_undo_offset(), g.get_undo_length()), (op.offs[0], len(op.redo_data), op.offs[1], len(op.undo_data)), 'data bounds of ' + what)
	eq((bytes(g.get_redo_data()), bytes(g.get_undo_data())), (op.redo_data, op.undo_data), 'data of ' + what)
	eq((g.get_target_attribute(), g.get_lcns_to_follow(), g.get_record_offset(), g.get_attribute_offset(), g.get_cluster_block_offset(), g.get_target_block_size(), g.get_target_vcn()),
		(op.target, len(op.lcns), op.roff, op.aoff, op.cbo, op.tbs, op.vcn), 'fields of ' + what)
	eq(g.get_lcns_for_page(), op.lcns, 'clusters of ' + what)


def t_tables(d, r):
	"""Table entries and lookups on their own."""
	v = d.uni(0, 1)
	esize = 40 if v else 44
	n = d.int(1, 12)
	refs = [d.u(64) for _ in range(n)]
	head = d.pick((24, 0, 8))
	buf = d.blob(head) + b''.join(oat_entry(v, x, lsn=i + 1, atype=0x90 + i) for i, x in enumerate(refs))
	p = LogFile.OpenAttributeTableDumpParser(buf, d.pick((1, 2)) if v else 0)
	for i, x in enumerate(refs):
		eq(p.find_file_reference_by_index(head + i * esize), x, 'reference at %d' % i)
		e = (LogFile.OpenAttributeEntry1 if v else LogFile.OpenAttributeEntry0)(buf[head + i * esize:])
		eq((e.get_file_reference(), e.get_lsn_of_open_record(), e.get_attribute_type_code(), e.get_bytes_per_index_buffer(), e.get_allocated_or_next_free()), (x, i + 1, 0x90 + i, 0x1000, 0xFFFFFFFF), 'entry %d' % i)
	raises(LogFile.ClientException, p.find_file_reference_by_index, 'index outside the table', len(buf) + d.uni(0, 100))
	raises(LogFile.ClientException, p.find_file_reference_by_index, 'index of an incomplete entry', len(buf) - d.int(1, esize - 1))
	names = {}
	raw = b''
	for _ in range(d.int(0, 10)):
		i = d.u(16)
		if i in names or not i:
			continue
		nm = ntfs.u16(d.odd_name(1, 40))
		names[i] = nm.decode('utf-16le', 'replace')
		raw += struct.pack('<HH', i, len(nm)) + nm + b'\x00\x00'
	raw += d.pick((b'', b'\x00' * 4))
	q = LogFile.AttributeNamesDumpParser(raw)
	for i in names:
		eq(q.find_name_by_index(i), names[i], 'name of %d' % i)
	for _ in range(3):
		i = d.int(1, 0xFFFF)
		eq(q.find_name_by_index(i), names.get(i), 'name of %d' % i)
	for code in (d.uni(0, 0x25), d.u(16)):
		eq(LogFile.ResolveNTFSOperation(code), NAMES.get(code, hex(code)), 'operation name')
	r.nontrivial(buf, raw)
	r.sample('%d entries, %d names' % (n, len(names)))


def t_short(d, r):
	"""Incomplete records are refused or shortened, never filled with other data."""
	op = Op(d, d.pick(NONRESIDENT), d.pick(RESIDENT), d.blob(d.int(1, 200)), d.blob(d.int(1, 200)), 5)
	b = op.bytes()
	cut = d.int(0, len(b))
	if cut < 32:
		raises(LogFile.ClientException, LogFile.NTFSLogRecord, 'record of %d bytes' % cut, b[:cut], 1, 1, 4096)
	else:
		g = LogFile.NTFSLogRecord(b[:cut], 1, 1, 4096)
		eq(bytes(g.get_redo_data()), b[:cut][op.offs[0]:op.offs[0] + len(op.redo_data)], 'redo data')
		eq(bytes(g.get_undo_data()), b[:cut][op.offs[1]:op.offs[1] + len(op.undo_data)], 'undo data')
		if cut < 32 + 8 * len(op.lcns):
			raises(LogFile.ClientException, g.get_lcns_for_page, 'incomplete clusters')
		w = bytearray(b)
		o = d.int(1, 31)
		struct.pack_into('<H', w, d.pick((4, 8)), o)
		g = LogFile.NTFSLogRecord(bytes(w), 1, 1, 4096)
		raises(LogFile.ClientException, lambda: (g.get_redo_data(), g.get_undo_data()), 'data inside the record header')
	raises(LogFile.ClientException, LogFile.NTFSRestartArea, 'short restart area', d.blob(d.int(0, 63)), 1)
	r.nontrivial(b, cut)
	r.sample('cut to %d of %d' % (cut, len(b)))


def t_fields(d, r):
	"""Every field of the logged structures over its whole range."""
	u = lambda b, o, n, sign=False: int.from_bytes(b[o:o + n], 'little', signed=sign)
	n = d.pick((64, 71, 72, 79, 80, 83, 84, 95, 96, 103, 104, 111, 112, 120, d.int(64, 200)))
	b = d.blob(n)
	g = LogFile.NTFSRestartArea(b, d.u(64))
	eq((g.get_major_version(), g.get_minor_version(), g.get_start_of_checkpoint_lsn(), g.get_open_attribute_table_lsn(), g.get_attribute_names_lsn(), g.get_dirty_page_table_lsn(), g.get_transaction_table_lsn()),
		(u(b, 0, 4), u(b, 4, 4)) + tuple(u(b, o, 8) for o in range(8, 48, 8)), 'restart area')
	eq((g.get_open_attribute_table_length(), g.get_attribute_names_length(), g.get_dirty_page_table_length(), g.get_transaction_table_length()), tuple(u(b, o, 4) for o in range(48, 64, 4)), 'table lengths')
	for name, o, w, sign in (('get_usn_journal_restart_offset', 64, 8, True), ('get_last_lsn', 72, 8, False), ('get_bytes_per_cluster', 80, 4, False), ('get_usn_journal_reference', 88, 8, False), ('get_usn_base', 96, 8, True),
		('get_oldest_lsn', 104, 8, False)):
		eq(getattr(g, name)(), u(b, o, w, sign) if n >= o + w else None, '%s of %d bytes' % (name, n))
	b = bytearray(d.blob(d.int(32, 120)))
	if d.chance(3):
		# Very many clusters.
		k = d.int(0x7FF0, 0x8010)
		b = bytearray(b[:32]) + bytearray(d.blob(8)) * k
		struct.pack_into('<H', b, 14, k)
		eq(len(LogFile.NTFSLogRecord(bytes(b), 1, 1, 4096).get_lcns_for_page()), k, 'number of clusters')
	if d.bool():
		struct.pack_into('<H', b, 0, d.pick(NONRESIDENT + RESIDENT))
	if d.bool():
		struct.pack_into('<H', b, 2, d.pick(NONRESIDENT + RESIDENT + (0,)))
	b = bytes(b)
	cs = 512 << d.int(0, 7)
	g = LogFile.NTFSLogRecord(b, d.u(64), d.u(32), cs)
	eq((g.get_redo_operation(), g.get_undo_operation(), g.get_redo_length(), g.get_undo_length(), g.get_target_attribute(), g.get_lcns_to_follow(), g.get_record_offset(), g.get_attribute_offset(), g.get_cluster_block_offset(),
		g.get_target_block_size(), g.get_target_vcn()), tuple(u(b, o, 2) for o in (0, 2, 6, 10, 12, 14, 16, 18, 20, 22)) + (u(b, 24, 8, True),), 'log record')
	for o, fn in ((4, g.get_redo_offset), (8, g.get_undo_offset)):
		if 0 < u(b, o, 2) < 32:
			raises(LogFile.ClientException, fn, 'data offset %d' % u(b, o, 2))
		else:
			eq(fn(), u(b, o, 2), 'data offset')
	ops = (u(b, 0, 2), u(b, 2, 2))
	res, non = any(x in RESIDENT for x in ops), any(x in NONRESIDENT for x in ops)
	at = u(b, 24, 8, True) * cs + u(b, 20, 2) * 512
	eq(g.calculate_mft_target_number(), at // (u(b, 22, 2) * 512 or 1024) if res else None, 'target record number')
	eq(g.calculate_offset_in_target(), u(b, 16, 2) + u(b, 18, 2) + (0 if res else at) if res or non else None, 'offset in the target')
	e = d.blob(60)
	g = LogFile.OpenAttributeEntry1(e[:d.int(40, 60)])
	eq((g.get_allocated_or_next_free(), g.get_bytes_per_index_buffer(), g.get_attribute_type_code(), g.get_file_reference(), g.get_lsn_of_open_record()), (u(e, 0, 4), u(e, 4, 4), u(e, 8, 4), u(e, 16, 8), u(e, 24, 8)), 'open attribute entry')
	raises(LogFile.ClientException, LogFile.OpenAttributeEntry1, 'short open attribute entry', e[:d.int(0, 39)])
	g = LogFile.OpenAttributeEntry0(e[:d.int(44, 60)])
	eq((g.get_allocated_or_next_free(), g.get_table_index(), g.get_file_reference(), g.get_lsn_of_open_record(), g.get_attribute_type_code(), g.get_bytes_per_index_buffer()),
		(u(e, 0, 4), u(e, 4, 4), u(e, 8, 8), u(e, 16, 8), u(e, 28, 4), u(e, 40, 4)), 'old open attribute entry')
	raises(LogFile.ClientException, LogFile.OpenAttributeEntry0, 'short old open attribute entry', e[:d.int(0, 43)])
	r.label('resident', res)
	r.label('non-resident', non)
	r.nontrivial(b, n)
	r.sample('operations %x/%x, restart area of %d bytes' % (ops + (n,)))


TESTS = [
	Test('fields', t_fields, 16000, shards=1),
	Test('history', t_history, 24000, shards=8, qsec=40, tsec=1500),
	Test('tables', t_tables, 8000, shards=2),
	Test('short', t_short, 8000, shards=2),
]
