"""C27: the NTFS report tool."""
import copy
import os
import struct
import uuid
from checks import Test, c07, c11, c15, c20, c31
from checks.c13 import gen_journal
from vlib.engine import *
from vlib import cli, lfs, ntfs, ntfsvol, report, usn, vss
from vlib.mftsim import A, NAMES, Sim
from vlib.mftvol import TableVolume
from dfir_ntfs import Attributes as MFTAttributes

RULE = ('A case generates the evidence (a file table with a history of creations, links, splits, deletions, reuse, damage, index entries and planted slack names; a journal; a log of a simulated NTFS client with meaningful or '
	'damaged operation data; directory indexes on a volume; a volume with shadow copies taken while the table changes and its clusters move; a memory image; a tracking log), runs the tool on it as a user would and compares every '
	'row, block and line of the report with the simulated state. Non-trivial: several names plus index or slack rows (mft), a found path (usn), more than two kinds of decoded data (log), kept blocks in a snapshot (allmft), more than '
	'three rows (indx), two objects (move), any report (mem). Distinct by input hash.')


def tool(mode, inputs, args=(), pre=b''):
	"""Run a mode over input files; returns (result, bytes of the report or None)."""
	with cli.scratch() as t:
		names = []
		for k, data in enumerate(inputs):
			p = os.path.join(t, 'in%d' % k)
			if isinstance(data, bytes):
				with open(p, 'wb') as f:
					f.write(data)
			else:
				data.tofile(p)
			names.append(p)
		out = os.path.join(t, 'out')
		if pre:
			with open(out, 'wb') as f:
				f.write(pre)
		r = cli.run('ntfs_parser', mode, *(names + list(args) + [out]))
		raw = None
		if os.path.exists(out):
			with open(out, 'rb') as f:
				raw = f.read()
		return r, raw


def table(mode, inputs, args=(), pre=b''):
	r, raw = tool(mode, inputs, args, pre)
	check(r.err is None, '%s: the tool failed: %s', mode, repr(r.err))
	eq((r.code, r.out), (0, ''), '%s: exit status and output' % mode)
	return cli.parse(raw)


def t_mft(d, r):
	sim = Sim(d)
	sim.history(3, 20)
	report.enrich(sim, d)
	hits = []
	if d.chance(40):
		hits = sim.damage(d.uni(1, 3))
	data = sim.build(d.pick((0, 0, 3)))
	if d.chance(10):
		data += d.blob(d.uni(1, sim.size - 1))
	got = table('--mft', [data], pre=d.pick((b'', b'x' * 100000)))
	check(got and got[0] == report.HEAD, '--mft: heading %s', got[:1])
	i, st = report.check_mft(sim, got, 1)
	check(i == len(got), '--mft: extra row %s', got[i:i + 1])
	for k in st:
		r.label(k, st[k] > 0)
	for k, _ in hits:
		r.label('damage-' + k)
	if st['names'] > 3 and (st['index'] or st['slack']):
		r.nontrivial(data)
	r.sample('%s, last row %s' % (st, got[-1]))


UHEAD = ['USN value', 'Source', 'Reason', 'MFT reference number', 'Parent MFT reference number', 'Timestamp', 'File name', 'File path (from $MFT)']


def refs_of(sim, d):
	"""References to the records of a table: present, stale, of extensions, absent."""
	x = d.pick(list(sim.recs.values()))
	k = d.uni(0, 9)
	if k <= 6:
		return x.ref()
	if k == 7:
		return ntfs.ref(x.number, d.pick((x.seq, (x.gen + 1) & 0xFFFF, (x.gen - 1) & 0xFFFF, 0)))
	if k == 8:
		return ntfs.ref(sim.max_number + d.uni(0, 1000), d.uni(0, 3))
	return d.u(64)


def t_usn(d, r):
	sim = Sim(d)
	sim.history(3, 18)
	if d.chance(30):
		sim.damage(d.uni(1, 2))
	data = sim.build()

	def make(d):
		w = usn.Rec(d)
		if d.chance(85):
			w.ref, w.parent = refs_of(sim, d), refs_of(sim, d)
		if d.chance(4):
			w.lost = d.int(1, 300)
		elif d.chance(10):
			w.name = d.odd_name(1, 20)
		return w
	journal, recs, events = gen_journal(d, d.int(0, 12), make)
	got = table('--usn', [data, journal], pre=d.pick((b'', b'x' * 100000)))
	check(got and got[0] == UHEAD, '--usn: heading %s', got[:1])
	hit = 0
	for i, w in enumerate(recs):
		named = w.v != 4
		report.need(got, i + 1, [str(w.usn), usn.resolve(w.source, usn.SOURCES, 'USN_SOURCE_'), usn.resolve(w.reason, usn.REASONS, 'USN_REASON_'), str(w.ref), str(w.parent), report.Tm(w.ts) if named else '',
			ntfs.text_expected(w.name) if named and not w.lost else '', report.Found(sim, w.ref)], 'record (version %d)' % w.v)
		hit += bool(got[i + 1][7])
		r.label('orphan path', got[i + 1][7].startswith('<'))
	check(len(got) == len(recs) + 1, '--usn: extra row %s', got[len(recs) + 1:][:1])
	r.label('path found', hit > 0)
	if hit and len(recs) > 1:
		r.nontrivial(hash(data + journal))
	r.sample('%s; last row %s' % (' '.join(events), got[-1]))


MHEAD = ['Possible MFT reference number', 'M timestamp', 'A timestamp', 'C timestamp', 'E timestamp', 'A timestamp (real)']


def t_mem(d, r):
	p, a = c31.layout(d)
	n = d.int(25, 60)
	want, blocks = [], []
	for i in range(n):
		b, e = c31.fcb(d, p, a)
		blocks.append(b)
		want.append(e)
	img, placed = c31.plant(d, blocks, False)
	if d.chance(5):
		# Too few blocks: the tool fails with the documented error.
		img2, _ = c31.plant(d, blocks[:d.int(0, 20)], False)
		res, raw = tool('--mem', [img2])
		check(isinstance(res.err, ValueError), '--mem: %r for an image with too few blocks', res.err)
	got = table('--mem', [img])
	check(got and got[0] == MHEAD, '--mem: heading %s', got[:1])
	for i, (o, k) in enumerate(placed):
		ref, t = want[k]
		report.need(got, i + 1, [str(ref)] + [report.Dt(t[x]) for x in (1, 3, 0, 2, 4)], 'block at %d' % o)
	check(len(got) == len(placed) + 1, '--mem: extra row %s', got[len(placed) + 1:][:1])
	r.nontrivial(hash(img))
	r.sample(got[-1])


SEP = '\n\n---\n\n'


def blocks_of(raw, mode):
	text = raw.decode('utf-8')
	parts = text.split(SEP)
	eq(parts[-1], '', '%s: end of the report' % mode)
	return parts[:-1]


def machine_text(name):
	s1 = name.decode('cp866')
	try:
		s2 = name.decode('windows-1252')
	except UnicodeDecodeError:
		return s1
	return s1 if s1 == s2 else '"%s" (cp-866), "%s" (windows-1252)' % (s1, s2)


def t_move(d, r):
	ss = d.pick((512, 4096))
	per = (ss - 16) // 124
	nsec = d.int(1, 4) if ss == 512 else d.int(1, 2)
	vol = c20.guid(d)
	mid, mraw = c20.machine(d)
	data = (c20.SIG + d.blob(24) + mraw + vol + d.blob(60)).ljust(ss, b'\x00')
	used = []
	for _ in range(nsec):
		sec = b''
		for k in range(per):
			e, raw = c20.entry(d, 2 if d.chance(40) else 1, d.u(32))
			if e['type'] == 2:
				used.append(e)
			sec += raw
		data += sec.ljust(ss, b'\x00')
	if b'\r' in mid or any(b'\r' in e['mid'] or SEP[:3].encode() in e['mid'] for e in used):
		raise Discard()
	res, raw = tool('--move', [data], pre=d.pick((b'', b'x' * 50000)))
	check(res.err is None, '--move: the tool failed: %s', repr(res.err))
	parts = blocks_of(raw, '--move')
	U = lambda b: uuid.UUID(bytes_le=b)
	eq(parts[0], 'File header:\n * Machine ID: %s\n * Volume object ID: %s' % (machine_text(mid), U(vol)), '--move: header')
	eq(len(parts) - 1, len(used), '--move: number of blocks')
	for k, (got, e) in enumerate(zip(parts[1:], used)):
		want = ['Object ID: %s' % U(e['oid']), '', 'Domain-relative object ID, volume: %s' % U(e['dv']), 'Domain-relative object ID, file: %s' % U(e['do']), ''] + \
			('Machine ID: %s' % machine_text(e['mid'])).split('\n') + ['', 'Birth domain-relative object ID, volume: %s' % U(e['bv']), 'Birth domain-relative object ID, file: %s' % U(e['bo']), '', 'GUID timestamps:']
		for label, g in ((' * Object ID: ', e['oid']), (' * Domain-relative object ID, file: ', e['do']), (' * Birth domain-relative object ID, file: ', e['bo'])):
			t = c20.gtime(g)
			want.append((label, report.Tm(t, report.GEPOCH) if t is not None else 'N/A'))
		want += ['', ('Timestamp (range): ', report.Tm(e['ts'] << 32), ' - ', report.Tm(e['ts'] << 32 | 0xFFFFFFFF))]
		lines_ok(got, want, '--move: block %d' % k)
	if len(used) > 1:
		r.nontrivial(hash(data))
	r.label('4096', ss == 4096)
	r.sample(parts[-1])


def line_ok(got, want):
	if isinstance(want, str):
		return got == want
	if isinstance(want, tuple):
		# Pieces: text, cell, text, cell.
		rest = got
		for k in range(0, len(want), 2):
			if not rest.startswith(want[k]):
				return False
			rest = rest[len(want[k]):]
			end = len(rest)
			if k + 2 < len(want):
				end = rest.find(want[k + 2])
				if end < 0:
					return False
			if not report.match(rest[:end], want[k + 1]):
				return False
			rest = rest[end:]
		return rest == ''
	return want.ok(got)


def lines_ok(text, want, what):
	lines = text.split('\n')
	for k, w in enumerate(want):
		check(k < len(lines), '%s: the line %r is missing', what, w)
		check(line_ok(lines[k], w), '%s: line %d is %r, expected %r', what, k, lines[k], w)
	check(len(lines) == len(want), '%s: extra lines %s', what, lines[len(want):][:3])


IHEAD = ['Source', 'MFT reference number', 'Is directory', 'Path', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', 'File size']


def parent_ref(sim, d, rec):
	return rec.ref() if d.chance(70) else refs_of(sim, d)


def gen_index(sim, d, rec, bs):
	"""(bytes, entries per intact buffer [(reference, FN)], names in slack)."""
	data, ents, slack = b'', [], []
	for k in range(d.int(1, 4)):
		here, raw = [], []
		room = bs - 40 - 2 * (bs // 512 + 1) - 40
		for _ in range(d.int(0, 4)):
			f = ntfs.gen_fn(d, parent_ref(sim, d, rec), d.odd_name(1, 8), d.u(8))
			reference = d.u(64)
			e = ntfs.index_entry(reference, f.value(), 0, d.u(64) if d.chance(20) else None)
			if d.chance(10):
				e, f = ntfs.index_entry(reference, d.blob(d.uni(1, 66))), None
			if sum(map(len, raw)) + len(e) > room:
				break
			raw.append(e)
			if f is not None:
				here.append((reference, f))
		left = room - sum(map(len, raw))
		planted, body, pos = [], b'\x00' * 8 * d.uni(1, 3), []
		tight = d.chance(25)
		if tight:
			body = b''
		for _ in range(1 if tight else d.uni(0, 2)):
			f = c11.gen_value(d)
			f.parent = parent_ref(sim, d, rec)
			v = f.value()
			if len(body) + len(v) + 8 > left:
				break
			pos.append(len(body) + 8)
			body += v + b'\x00' * (-len(v) % 8)
			planted.append(f)
		while tight and left - len(body) - 8 >= 24:
			# Entries without a name up to the place of the slack.
			raw.append(ntfs.index_entry(d.u(64), bytes(min(64, (left - len(body) - 8) // 8 * 8 - 16))))
			left -= len(raw[-1])
		prot, plain, end = ntfs.index_buffer(bs, raw + [ntfs.index_end()], k, d.u(64), d.int(1, 0xFFFF), 40, body)
		if c11.candidates(plain[end:]) != pos:
			raise Discard()
		if k and d.chance(15):
			b = bytearray(prot)
			b[510] ^= 0x81
			prot = bytes(b)
		else:
			ents.append(here)
			slack.append(planted)
		data += prot
	return data, ents, slack


class Inside(object):
	"""The path of a name in the index of a directory."""

	def __init__(self, sim, rec, f):
		self.sim, self.rec, self.f = sim, rec, f

	def ok(self, cell):
		if report.Under(self.sim, self.f.parent, ntfs.text_expected(self.f.name)).ok(cell):
			return True
		# The current sequence number of a deleted directory is accepted as its own reference.
		return self.f.parent == ntfs.ref(self.rec.number, self.rec.seq) and report.Under(self.sim, self.rec.ref(), ntfs.text_expected(self.f.name)).ok(cell)

	def __repr__(self):
		return '<%r in %x>' % (self.f.name, self.f.parent)


def t_indx(d, r):
	sim = Sim(d)
	sim.index_streams = False
	sim.history(3, 16)
	tv = TableVolume(d, sim)
	model = {}
	for rec in list(sim.bases()):
		if rec.number in (0, 3) or not (rec.is_dir and d.chance(70) or d.chance(4)):
			continue
		bs = d.pick((4096, 4096, 1024, 2048))
		data, ents, slack = gen_index(sim, d, rec, bs)
		runs = tv.clusters(data, d.uni(1, 4))
		cuts = sorted(set(d.uni(1, len(runs)) for _ in range(d.uni(0, 2))) - {len(runs)})
		if not rec.in_use:
			cuts = ()
		if not cuts:
			a = A(0xA0, '$I30', runs=runs, highest=sum(l for _, l in runs) - 1, size=len(data), alloc=sum(l for _, l in runs) * tv.vol.cs)
			if rec.room(sim.size) < len(a.raw(0)):
				continue
			rec.attrs.append(a)
		elif not sim.put(rec, 0xA0, '$I30', runs, len(data), sum(l for _, l in runs) * tv.vol.cs, cuts):
			raise Discard()
		model[rec.number] = (rec, ents, slack)
	hits = []
	if d.chance(30):
		hits = sim.damage(d.uni(1, 2), ('gone', 'badattr', 'shortname', 'nameless', 'cycle', 'notdir', 'badparent'))
	img = tv.image()
	if d.chance(20):
		# The image ends early, after the file table.
		low = tv.vol.voff + (max(tv.lcns) + 1) * tv.vol.cs
		img = img[:low + d.int(0, len(img) - low)]
	end = (len(img) - tv.vol.voff) // tv.vol.cs
	got = table('--indx', [img], [tv.vol.voff], pre=d.pick((b'', b'x' * 100000)))
	check(got and got[0] == IHEAD, '--indx: heading %s', got[:1])
	i = 1
	other = broken = 0
	for b in sim.bases():
		if b.number not in model or not sim.names_ok(b) or model[b.number][0] is not b:
			continue
		_, ents, slack = model[b.number]
		want = []
		for reference, f in [x for e in ents for x in e]:
			want.append(['Index record', str(reference), report.yn(f.fattr & 0x10000000), Inside(sim, b, f)] + report.fn_times(f) + [str(f.size)])
			other += f.parent != b.ref()
		for f in [x for e in slack for x in e]:
			want.append(['Index slack', '?', report.yn(f.fattr & 0x10000000), Inside(sim, b, f)] + report.fn_times(f) + [str(f.size)])
			other += f.parent != b.ref()
			r.label('slack')
		pieces = sorted([a for a in sim.file_attrs(b) if a.type == 0xA0], key=lambda a: a.lowest)
		whole = all(x.highest + 1 == y.lowest for x, y in zip(pieces, pieces[1:])) and pieces and pieces[0].lowest == 0 and sum(l for a in pieces for _, l in a.runs) * tv.vol.cs >= pieces[0].size
		if whole and all(o + l <= end for a in pieces for o, l in a.runs):
			for w in want:
				report.need(got, i, w, 'index of record %d' % b.number)
				i += 1
		else:
			# Only what can still be read.
			broken += 1
			for w in want:
				if i < len(got) and report.row_ok(got[i], w):
					i += 1
	check(i == len(got), '--indx: extra row %s', got[i:i + 1])
	r.label('missing data', broken > 0)
	r.label('other parent', other > 0)
	for k, _ in hits:
		r.label('damage-' + k)
	if i > 3:
		r.nontrivial(hash(img))
	r.sample('%d rows, last %s' % (i - 1, got[-1]))


class TableHistory(object):
	"""A volume with a file table which changes between shadow copies."""

	def __init__(self, d):
		self.d = d
		self.mft = Sim(d, size=d.pick((1024, 1024, 4096)), max_number=28)
		self.mft.history(2, 10)
		report.enrich(self.mft, d)
		self.cs = d.pick((4096, 16384, 16384))
		self.tv = tv = TableVolume(d, self.mft, voff=d.pick((0, 512, 1048576)), cs=self.cs, reserve=d.pick((200, 600)))
		self.per = vss.BLK // self.cs
		if min(tv.lcns) < self.per:
			raise Discard()  # The first block belongs to the boot code.
		self.user = -(-tv.vol.total // self.per)
		blocks = self.user + 40 + 60 * 4
		tv.vol.total = blocks * self.per
		vol = tv.vol
		tv.boot = ntfs.boot_sector(vol.bps, vol.spc, vol.total * vol.spc, tv.lcns[0], d.uni(1, vol.total), vol.frs_code(), d.pick((1, -12)), d.u(64))
		self.sim = vss.Sim(blocks)
		self.sim.reserved = set()
		self.known = {}  # Contents of sectors by their identifiers.
		self.noise = bytearray(d.blob(64) * (self.user * vss.BLK // 64))
		self.snaps = []
		self.now = None
		self.put(True)

	def put(self, first=False):
		"""Write the current table to the simulated volume."""
		body = bytearray(self.noise)
		ntfsvol.store(self.tv.vol, body, self.tv.lcns, self.tv.table())
		if first:
			for n in range(len(body) // 512):
				self.known[vss.INIT + n] = bytes(body[n * 512:n * 512 + 512])
			self.now = body
			return
		for b in range(1, self.user):
			mask = 0
			ids = self.sim.get(b)
			for s in range(vss.SPB):
				o = b * vss.BLK + s * 512
				if self.known[ids[s]] != body[o:o + 512]:
					mask |= 1 << s
			if not mask:
				continue
			self.sim.write(b, mask)
			ids = self.sim.get(b)
			for s in range(vss.SPB):
				o = b * vss.BLK + s * 512
				self.known[ids[s]] = bytes(body[o:o + 512])

	def change(self):
		"""The next epoch of the table."""
		d, tv = self.d, self.tv
		if self.cs == vss.BLK and len(tv.lcns) > 1 and d.chance(60):
			self.move(d.uni(1, len(tv.lcns) - 1))
		self.mft.history(1, 6)
		for r in self.mft.recs.values():
			r.slack = b''
		report.plant_slack(self.mft, d)
		self.put()

	def move(self, k):
		"""A cluster of the table goes to another place."""
		d, tv = self.d, self.tv
		if tv.lcns[0] + 1 == tv.lcns[1] and k == 1 and self.mft.size > self.cs:
			return
		free = [c for c in range(1, self.user) if c not in tv.lcns]
		to = d.pick(free) if free else None
		if to is None or not self.sim.move(tv.lcns[k], to):
			return
		self.noise[to * vss.BLK:(to + 1) * vss.BLK] = b'\x00' * vss.BLK
		old = tv.lcns[k]
		ids = self.sim.get(old)
		self.noise[old * vss.BLK:(old + 1) * vss.BLK] = b''.join(self.known[i] for i in ids)
		tv.lcns[k] = to
		runs = []
		for c in tv.lcns:
			if runs and runs[-1][0] + runs[-1][1] == c:
				runs[-1] = (runs[-1][0], runs[-1][1] + 1)
			else:
				runs.append((c, 1))
		for a in self.mft.recs[0].attrs:
			if a.type == 0x80 and a.name is None:
				a.runs = runs
		self.moves = getattr(self, 'moves', 0) + 1

	def frozen(self):
		return copy.deepcopy(self.mft, {id(self.d): self.d})

	def snapshot(self, pos, null):
		d = self.d
		table = set(c // self.per for c in self.tv.lcns)
		free = [b for b in range(1, self.user) if b not in table and d.chance(50)]
		s = self.sim.snapshot(uuid.UUID(bytes_le=d.blobnz(15) + bytes([pos & 255])), d.int(125911584000000000, 135379296000000000), (0x400 if null else 0) | d.pick((0x80, 0, d.u(8))), free, d.bool(), pos, d.u(8))
		self.snaps.append((s, self.frozen()))

	def image(self):
		used = set(range(self.user))
		state = [self.user + self.d.uni(0, 30)]

		def alloc():
			state[0] += 1
			return state[0]
		outer = self

		class Img(vss.Image):
			def id_bytes(self, i, storage=False):
				if i in outer.known:
					return outer.known[i]
				return super(Img, self).id_bytes(i, storage)

			def volume_sector(self, n):
				if n == 0:
					return outer.tv.boot
				return super(Img, self).volume_sector(n)
		img = Img(self.sim, self.d, alloc, volume_offset=self.tv.vol.voff)
		img.finish(self.d.uni(1, 2), self.d.chance(30), self.d.uni(0, 2))
		if state[0] >= self.sim.blocks:
			raise Discard()
		return img


def t_allmft(d, r):
	h = TableHistory(d)
	null = d.chance(80)
	pos = d.uni(0, 9)
	n = d.pickw(((1, 0), (3, 1), (4, 2), (2, 3)))
	for k in range(n):
		h.snapshot(pos + k, null)
		for _ in range(d.pickw(((1, 0), (4, 1), (2, 2)))):
			h.change()
	img = h.image()
	f = img.volume()
	data = bytearray(f.read())
	vo = h.tv.vol.voff
	bad = None
	if n == 0 or d.chance(5):
		# No shadow copies on the volume.
		data[vo + 0x1E00:vo + 0x2000] = d.pick((bytes(512), d.blob(512)))
		n = 0
	elif d.chance(5):
		bad = 'other volume'
		data[vo + 0x1E00 + 80] ^= 0xFF
	res, raw = tool('--all-mft', [bytes(data)], [vo], pre=d.pick((b'', b'x' * 200000)))
	if bad is None:
		check(res.err is None, '--all-mft: the tool failed: %s', repr(res.err))
	else:
		check(res.err is None or isinstance(res.err, NotImplementedError), '--all-mft, storage on another volume: the tool failed: %s', repr(res.err))
	got = cli.parse(raw)
	check(got and got[0] == report.HEAD, '--all-mft: heading %s', got[:1])
	i, st = report.check_mft(h.mft, got, 1, 'main volume')
	if n and bad is None:
		truth = {s.guid: m for s, m in h.snaps}
		for s in img.listing:
			i, st2 = report.check_mft(truth[s.guid], got, i, 'shadow copy %d' % s.pos)
	check(i == len(got), '--all-mft: extra row %s', got[i:i + 1])
	r.label('snapshots-%d' % n)
	r.label('moved', getattr(h, 'moves', 0) > 0)
	r.label('storage on another volume', bad is not None)
	if n and any(len(s.entries) for s, _ in h.snaps):
		r.nontrivial(hash(bytes(data)))
	r.sample('%d snapshots, %d rows, entries %s' % (n, len(got), [len(s.entries) for s, _ in h.snaps]))


class Lines(object):
	"""The lines of a block, consumed one by one."""

	def __init__(self, text, what):
		self.lines, self.pos, self.what = text.split('\n'), 0, what

	def line(self, want):
		check(self.pos < len(self.lines), '%s: no line for %r', self.what, want)
		check(line_ok(self.lines[self.pos], want), '%s: line %d is %r, expected %r', self.what, self.pos, self.lines[self.pos], want)
		self.pos += 1

	def opt(self, prefix, cell):
		"""A line which is there unless the value is absent."""
		if self.pos < len(self.lines) and self.lines[self.pos].startswith(prefix):
			text = self.lines[self.pos][len(prefix):]
			check(text != '' and cell.ok(text), '%s: line %d is %r, expected %r', self.what, self.pos, self.lines[self.pos], cell)
			self.pos += 1
			return True
		check(cell.ok(''), '%s: line %d is %r, expected %r with %r', self.what, self.pos, self.lines[self.pos:self.pos + 1], prefix, cell)
		return False

	def dump(self, data):
		for want in hexdump(data):
			self.line(want)

	def end(self):
		check(self.pos == len(self.lines), '%s: extra lines %s', self.what, self.lines[self.pos:self.pos + 3])


def hexdump(data):
	if not data:
		return ['-']
	out = []
	for i in range(0, len(data), 16):
		part = data[i:i + 16]
		left, right = ' '.join('%02X' % c for c in part[:8]), ' '.join('%02X' % c for c in part[8:])
		text = left + ('-' + right if right else '')
		out.append('%08X  %s  %s' % (i, text + '   ' * (16 - len(part)), ''.join(chr(c) if 32 <= c <= 126 else '.' for c in part)))
	return out


class ByNumber(object):
	"""The path of the file with a record number (any sequence number), or nothing."""

	def __init__(self, sim, num):
		self.sim, self.num = sim, num

	def ok(self, text):
		b = c07.model_by_number(self.sim, self.num, None, True)
		if b is None or not self.sim.names_ok(b):
			return text == ''
		return report.path_ok(self.sim, b, text, '', None)

	def __repr__(self):
		return '<path of record %d>' % self.num


TIMES = ('M', 'A', 'C', 'E')


class Said(object):
	"""What one log record says, apart from its data: blocks of lines."""

	def __init__(self):
		self.blocks = []

	def times(self, m, a, c, e):
		return [(' * %s timestamp: ' % k, report.Tm(v) if v is not None else 'N/A') for k, v in zip(TIMES, (m, a, c, e))]

	def add(self, head, lines):
		self.blocks.append([head] + lines)

	def si(self, v):
		c, m, e, a, fa = struct.unpack_from('<QQQQL', v)
		self.add('$STANDARD_INFORMATION:', self.times(m, a, c, e) + [(' * File attributes: ', FileAttributes(fa))])

	def fn(self, f, sim, head='$FILE_NAME:'):
		self.add(head, self.times(f.m, f.a, f.c, f.e) + [' * File name: ' + f.name, ' * Parent (file reference number): %d' % f.parent, ['opt', ' * Parent path (from $MFT): ', report.Found(sim, f.parent)]])

	def oid(self, v):
		t = c20.gtime(v[:16])
		self.add('$OBJECT_ID:', [' * GUID: %s' % uuid.UUID(bytes_le=v[:16]), (' * Timestamp: ', report.Tm(t, report.GEPOCH) if t is not None else 'N/A')])

	def usn(self, w):
		lines = [' Number: %d' % w.usn, ' Source: ' + usn.resolve(w.source, usn.SOURCES, 'USN_SOURCE_'), ' Reason: ' + usn.resolve(w.reason, usn.REASONS, 'USN_REASON_'), ' File reference number: %d' % w.ref, ' Parent file reference number: %d' % w.parent]
		if w.v != 4:
			lines += [(' Timestamp: ', report.Tm(w.ts)), ' File name: ' + w.name]
		self.add('USN record (version 4):' if w.v == 4 else 'USN record:', lines)


class FileAttributes(object):
	def __init__(self, v):
		self.v = v

	def ok(self, text):
		return text == MFTAttributes.ResolveFileAttributes(self.v)  # The text form itself is judged by C09.

	def __repr__(self):
		return '<attributes %x>' % self.v


def gen_attr(d, sim, said):
	"""A resident attribute: (raw bytes, function to record what it says)."""
	k = d.uni(0, 4)
	if k == 0:
		v = report.si(d)
		return ntfs.attr_resident(0x10, v, None, d.uni(0, 9)), lambda: said.si(v)
	if k == 1:
		f = ntfs.gen_fn(d, refs_of(sim, d), d.name(1, 8, NAMES), d.uni(0, 3))
		return ntfs.attr_resident(0x30, f.value(), None, d.uni(0, 9)), lambda: said.fn(f, sim)
	if k == 2:
		v = c20.guid(d) + d.blob(d.pick((0, 48)))
		return ntfs.attr_resident(0x40, v, None, d.uni(0, 9)), lambda: said.oid(v)
	if k == 3:
		return ntfs.attr_resident(0x80, d.blob(d.uni(0, 40)), None if d.bool() else d.name(1, 5), d.uni(0, 9)), lambda: None
	return ntfs.attr_nonresident(0x80, [(d.int(1, 1000), d.int(1, 100))], 0, 5, 4096, 100, instance=3), lambda: None


def partial_si(said, data, at, label):
	if len(data) < 8:
		return
	got = {}
	for k, o in (('C', 0), ('M', 8), ('E', 16), ('A', 24)):
		got[k] = struct.unpack_from('<Q', data, o - at)[0] if at <= o and o - at + 8 <= len(data) else None
	said.add('Possible update to $STANDARD_INFORMATION (%s data):' % label, said.times(got['M'], got['A'], got['C'], got['E']))


def gen_op(d, sim, oat, add):
	"""One operation of the file system driver with meaningful data."""
	said = Said()
	k = d.uni(0, 11)
	undo_side = d.chance(30)
	data, target = b'', d.u(16)
	tbs = d.pick((2, 8, 0))
	fs = tbs * 512 or 1024
	opened = sorted(oat.open)
	other = b''
	op2 = 0
	aoff = roff = None
	if k == 0:
		rec = ntfs.Record(d.uni(0, 99), d.u(16), 1, 0, size=fs, short=d.chance(20))
		room = rec.room()
		acts = []
		for _ in range(d.int(0, 4)):
			raw, act = gen_attr(d, sim, said)
			if len(raw) <= room:
				room -= len(raw)
				rec.attrs.append(raw)
				acts.append(act)
		_, plain, end = rec.build()
		code, undo_side = 2, False
		data = plain[:end + 8]
		for a in acts:
			a()
	elif k in (1, 2):
		code = d.pick((5, 4))
		data, act = gen_attr(d, sim, said)
		if code == 4:
			more, _ = gen_attr(d, sim, said)
			data += more
			other = d.blob(d.uni(0, 15)) if d.bool() else b''
			op2 = d.pick((0, 4))
		else:
			op2 = d.pick((6, 0))
			other = b'' if op2 == 0 else d.blob(d.uni(0, 40))
		if len(other) >= len(data):
			other = b''
		act()
	elif k == 3:
		code, op2 = 7, 7
		data, other = report.si(d)[:d.pick((8, 16, 24, 32, 48))], b''
		if d.bool():
			other = report.si(d)[:d.uni(0, 40)]
		base = 80 if fs == 1024 else 96
		at = base + d.pick((0, 8, 16, 24, d.uni(0, 32), -8, 33, 40))
		roff = d.int(0, min(at, 200))
		aoff = at - roff
		undo_side = False
		if base <= at <= base + 32:
			partial_si(said, data, at - base, 'redo')
			partial_si(said, other, at - base, 'undo')
	elif k in (4, 5):
		code = d.pick((0xC, 0xE, 0x10))
		op2 = {0xC: 0xD, 0xE: 0xF, 0x10: 0}[code]
		f = ntfs.gen_fn(d, refs_of(sim, d), d.name(1, 8, NAMES), d.uni(0, 3))
		data = ntfs.index_entry(d.u(64), f.value(), 0, d.u(64) if d.chance(20) else None)
		if d.chance(15):
			data = ntfs.index_end()
		else:
			said.fn(f, sim, '$FILE_NAME in index:')
		if code == 0x10:
			data += ntfs.index_end()
	elif k == 6:
		code = d.pick((0x13, 0x14))
		op2 = d.pick((code, code, 0))
		both = []
		for _ in range(2):
			f = ntfs.gen_fn(d, 0, 'a')
			both.append((f, f.value()[8:64]))
		data = both[0][1]
		if op2:
			other = both[1][1]
		pairs = [('redo', both[0][0])] + ([('undo', both[1][0])] if op2 else [])
		if undo_side:
			pairs = [('undo' if a == 'redo' else 'redo', f) for a, f in pairs][::-1]
		for label, f in pairs:
			said.add('Update to duplicated information (%s data):' % label, said.times(f.m, f.a, f.c, f.e))
	elif k in (7, 8) and opened:
		code = 8
		ws = []
		for _ in range(2):
			w = usn.Rec(d)
			w.name = d.name(1, 20, NAMES)
			ws.append(w)
		data = ws[0].bytes()
		op2 = d.pick((0, 8))
		if op2:
			other = ws[1].bytes()
	elif k == 9:
		code, undo_side, op2 = 3, False, d.pick((0, 2))
	else:
		code = d.pick(c15.RESIDENT + c15.NONRESIDENT + c15.OTHER)
		if code in (2, 3, 4, 5, 7, 0xC, 0xE, 0x10, 0x13, 0x14, 8):
			code = 0xB
		data, op2, other = d.blob(d.pick((0, d.uni(1, 60)))), d.pick((0, 0, 1, 0x18)), d.blob(d.pick((0, d.uni(1, 40))))
	if code in c15.NONRESIDENT or op2 in c15.NONRESIDENT:
		target = d.pick(opened) if opened and d.chance(85) else 24 + oat.esize * (oat.slots + d.uni(0, 9))
		if code == 8 and oat.open.get(target, (0, ''))[1] == '$J':
			for w in ([ws[0]] if not op2 else ws[::-1] if undo_side else ws):
				said.usn(w)
	a, b = (op2, code) if undo_side else (code, op2)
	x, y = (other, data) if undo_side else (data, other)
	op = c15.Op(d, a, b, x, y, target)
	op.said = said
	if k == 11 and d.bool() or k != 11:
		op.tbs = tbs
		num = d.pick(list(sim.recs)) if d.chance(85) else d.uni(0, 100000)
		off = num * fs
		op.vcn, rest = divmod(off, oat.cluster)
		op.cbo = rest // 512
	if aoff is not None:
		op.aoff, op.roff = aoff, roff
	return op


def log_history(d, sim, damage):
	major = d.pick((0, 1, 1, 2))
	oat = c15.Sim(d, 1 if major else 0)
	oat.cluster = cluster = d.pick((4096, 512, 1024, 65536))
	log = lfs.Log(d.pick(((1, 1), (2, 0))), d.pick((40, 40, 40, 6)), lap=d.pick((1, 7)))
	ops = {}

	def add(op, data=None):
		if op is not None:
			op.truth = oat.open.get(op.target)
		rec = lfs.Rec(op.bytes() if op is not None else data, 1 if op is not None else 2, d.u(32), 0, 0, 0)
		log.append(rec)
		ops[rec.lsn] = (op, rec)

	def restart():
		add(None, struct.pack('<LLQQQQQLLLLqQLLQqQ', major, d.uni(0, 1), *([d.pick([x.lsn for x in log.recs] + [0]) for _ in range(5)] + [d.u(32) for _ in range(4)] + [d.int(0, 1 << 60), d.u(60), cluster, 0, d.u(64), d.int(0, 1 << 60), d.u(60)])))
	restart()
	for _ in range(d.int(1, 24)):
		k = d.uni(0, 9)
		if k <= 1 and oat.free():
			i = d.pick(oat.free())
			oat.open[i] = (refs_of(sim, d), d.pick(c15.ANAMES + ('$J', '$J', '$J')))
			op = c15.Op(d, 0x1C, 0, c15.oat_entry(oat.v, oat.open[i][0]), oat.open[i][1].encode('utf-16le'), i)
			op.said = Said()
			add(op)
		elif k == 2:
			restart()
		else:
			op = gen_op(d, sim, oat, add)
			if damage and d.chance(60):
				for side in ('redo_data', 'undo_data'):
					v = bytearray(getattr(op, side))
					j = d.uni(0, 4)
					if j == 0:
						v = v[:d.uni(0, len(v))]
					elif j == 1:
						v = d.blob(d.uni(0, 200))
					elif j == 2 and v:
						for _ in range(d.uni(1, 4)):
							v[d.uni(0, len(v) - 1)] = d.u(8)
					elif j == 3 and len(v) > 24:
						# A field near the beginning.
						o = d.uni(0, 23)
						v[o:o + 2] = struct.pack('<H', d.pick((0, 1, 8, 24, 0xFFFF, len(v), d.u(16))))
					setattr(op, side, bytes(v))
				op.share = False
				op.said = None
				if d.chance(20):
					op.tbs = d.pick((0, 1, 2, 8, 3, d.u(16)))
			add(op)
	restart()
	log.flush()
	log.apply()
	if log.lookalike():
		raise Discard()
	p = lfs.restart_page(log.version, log.bits, log.file_size, log.header, log.data_off, log.recs[-1].lsn, [(log.recs[0].lsn, log.recs[-1].lsn, 1, 'NTFS')])
	req, allowed, eff = log.expected([log.recs[-1].lsn, log.recs[0].lsn])
	return log.image(p, p), ops, log, req, allowed, eff, oat


def log_test(d, r, damage):
	sim = Sim(d)
	sim.history(3, 14)
	if d.chance(20):
		sim.damage(d.uni(1, 2))
	mft = sim.build()
	image, ops, log, req, allowed, eff, oat = log_history(d, sim, damage)
	if any(len(log.stored(ops[x][1], eff)) != len(ops[x][1].data) for x in allowed):
		raise Discard()  # A wrapped log with an incomplete record.
	res, raw = tool('--log', [mft, image], pre=d.pick((b'', b'x' * 100000)))
	check(res.err is None, '--log: the tool failed: %s', repr(res.err))
	eq((res.code, res.out), (0, ''), '--log: exit status and output')
	parts = blocks_of(raw, '--log')
	deleted, seen, kinds = [], [], set()
	opened = set()
	while parts and parts[0].startswith('LSN: '):
		text = parts.pop(0)
		lsn = int(text.split('\n')[0][5:])
		check(lsn in ops, '--log: LSN %d is not in the log', lsn)
		check(not seen or seen[-1] < lsn, '--log: LSN %d after %d', lsn, (seen or [0])[-1])
		seen.append(lsn)
		op, rec = ops[lsn]
		ls = Lines(text, '--log: record %d' % lsn)
		ls.line('LSN: %d' % lsn)
		if op is None:
			v = struct.unpack_from('<LLQQQQQLLLL', rec.data)
			for w in ('Restart area, version: %d.%d' % v[:2], ' Start of checkpoint LSN: %d' % v[2], ' Tables (LSN and length):', ' * Open attribute table: %d %d' % (v[3], v[7]), ' * Attribute names: %d %d' % (v[4], v[8]),
					' * Dirty page table: %d %d' % (v[5], v[9]), ' * Transaction table: %d %d' % (v[6], v[10])):
				ls.line(w)
			ls.end()
			continue
		name = lambda x: c15.NAMES.get(x, hex(x))
		ls.line('Transaction ID: %d' % rec.tid)
		ls.line('Log record, redo operation: %s, undo operation: %s' % (name(op.redo), name(op.undo)))
		res_t = op.redo in c15.RESIDENT or op.undo in c15.RESIDENT
		non_t = op.redo in c15.NONRESIDENT or op.undo in c15.NONRESIDENT
		fs = op.tbs * 512 or 1024
		num = None
		if op.redo == 0x1C:
			opened.add(op.target)
		unknown = False
		if res_t:
			num = (op.vcn * oat.cluster + op.cbo * 512) // fs
			ls.line('Target (file number): %d' % num)
			if ls.opt('Target path (from $MFT, likely wrong if the file was deleted later): ', ByNumber(sim, num)):
				kinds.add('path by number')
			ls.line('Offset in target: %d' % (op.aoff + op.roff))
		elif non_t and op.truth is not None and op.target in opened:
			ls.line('Target (file reference number): %d' % op.truth[0])
			n = op.truth[1]
			ls.line('Target (attribute name): ' + (n or '-' if ls.lines[ls.pos].endswith(': -') else n))
			if ls.opt('Target path (from $MFT): ', report.Found(sim, op.truth[0])):
				kinds.add('path by reference')
			ls.line('Offset in target: %d' % (op.vcn * oat.cluster + op.cbo * 512 + op.aoff + op.roff))
		else:
			unknown = True
			if op.truth is not None and non_t:
				# Opened in a lost record: there may be nothing to resolve it with.
				check(ls.lines[ls.pos].startswith('Unknown target'), '--log: record %d: %s', lsn, ls.lines[ls.pos])
			ls.line('Unknown target, target attribute: %d' % op.target)
			if non_t:
				ls.line('Offset in target: %d' % (op.vcn * oat.cluster + op.cbo * 512 + op.aoff + op.roff))
			else:
				ls.line('Unknown offset in target')
			kinds.add('unknown target')
		if op.lcns:
			ls.line('LCN(s): ' + ' '.join(map(str, op.lcns)))
		ls.line('Redo data:')
		ls.dump(op.redo_data)
		ls.line('')
		ls.line('Undo data:')
		ls.dump(op.undo_data)
		ls.line('')
		if op.redo == 3:
			deleted.append(str(num))
		if op.said is None:
			kinds.add('damaged')
			continue
		for b in op.said.blocks:
			if unknown and b[0].startswith('USN'):
				continue
			for w in b:
				if isinstance(w, list):
					ls.opt(w[1], w[2])
				else:
					ls.line(w)
			ls.line('')
			kinds.add(b[0])
		ls.end()
	check(req <= set(seen), '--log: no block for records %s', sorted(req - set(seen))[:5])
	if deleted:
		check(len(parts) == 1, '--log: list of deleted files: %s', parts)
		eq(parts[0], 'Files and directories with these MFT numbers were deleted (in this order):\n' + ' '.join(deleted), '--log: deleted files')
	else:
		eq(parts, [], '--log: end of the report')
	for k in kinds:
		r.label(k)
	if len(kinds) > 2 or damage and 'damaged' in kinds:
		r.nontrivial(hash(image))
	r.sample('%d blocks: %s' % (len(seen), ' '.join(sorted(kinds))))


def t_log(d, r):
	log_test(d, r, False)


def t_logdamage(d, r):
	log_test(d, r, True)


TESTS = [
	Test('mft', t_mft, 2500, 60000),
	Test('usn', t_usn, 2500, 60000),
	Test('indx', t_indx, 2500, 60000),
	Test('allmft', t_allmft, 500, 20000),
	Test('log', t_log, 1500, 40000),
	Test('log-damage', t_logdamage, 2500, 60000),
	Test('mem', t_mem, 400, 8000),
	Test('move', t_move, 1500, 30000),
]
