"""Reference rows for the reports of the NTFS tool, computed from the simulated file table."""
import datetime
import re
import struct
from vlib import ntfs
from vlib.engine import Discard, Violation, check
from vlib.mftsim import A
from checks.c06 import expected_ok
from checks.c07 import model_by_number

GEPOCH = datetime.datetime(1582, 10, 15)
STAMP = re.compile(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}\Z')
UNKNOWN = '<Unknown>'
SAME = '<Unknown, likely the same as above>/<Can be partially overwritten or start with a wrong character>'


class Tm(object):
	"""A timestamp cell."""

	def __init__(self, ft, epoch=datetime.datetime(1601, 1, 1)):
		self.ft, self.epoch = ft, epoch

	def ok(self, cell):
		if cell == 'N/A':
			return ntfs.time_ok(None, self.ft, self.epoch)
		if not STAMP.match(cell):
			return False
		return ntfs.time_ok(datetime.datetime.strptime(cell, '%Y-%m-%d %H:%M:%S.%f'), self.ft, self.epoch)

	def __repr__(self):
		return '<time %d>' % self.ft


class Dt(Tm):
	"""A timestamp cell in the default form of the language (without a fraction if there is none)."""

	def ok(self, cell):
		try:
			return cell != 'N/A' and ntfs.time_ok(datetime.datetime.fromisoformat(cell), self.ft, self.epoch)
		except ValueError:
			return False


class Found(object):
	"""The path of the file which a reference leads to, or an empty cell."""

	def __init__(self, sim, reference):
		self.sim, self.reference = sim, reference

	def ok(self, cell):
		return lookup_ok(self.sim, self.reference, cell, '', None)

	def __repr__(self):
		return '<path of %x>' % self.reference


class Unix(object):
	"""A Linux timestamp cell (seconds and nanoseconds)."""

	def __init__(self, s, ns):
		self.s, self.ns = s, ns

	def ok(self, cell):
		from checks.c30 import time_fine
		if cell == 'N/A':
			return time_fine(None, self.s, self.ns)
		if not STAMP.match(cell):
			return False
		return time_fine(datetime.datetime.strptime(cell, '%Y-%m-%d %H:%M:%S.%f'), self.s, self.ns)

	def __repr__(self):
		return '<time %d s %d ns>' % (self.s, self.ns)


class Path(object):
	"""A path cell for a name (any accepted form)."""

	def __init__(self, sim, fn):
		self.sim, self.fn = sim, fn

	def ok(self, cell):
		return expected_ok(self.sim, self.fn, cell)[0]

	def __repr__(self):
		return '<path %r>' % (self.sim.path_of(self.fn),)


class Under(object):
	"""A name under a directory found by reference, or below the unknown marker."""

	def __init__(self, sim, reference, name):
		self.sim, self.reference, self.name = sim, reference, name

	def ok(self, cell):
		tail = '/' + ntfs.text_expected(self.name)
		if not cell.endswith(tail):
			return False
		return lookup_ok(self.sim, self.reference, cell[:-len(tail)], UNKNOWN, '')

	def __repr__(self):
		return '<%r in %x>' % (self.name, self.reference)


def lookup_ok(sim, reference, text, absent, root):
	"""Is `text` the path of the file which a reference leads to (or `absent` if there is none)?"""
	num, seq = reference & 0xFFFFFFFFFFFF, reference >> 48
	b = model_by_number(sim, num, seq, True)
	if b is None or not sim.names_ok(b):
		return text == absent
	return path_ok(sim, b, text, absent, root)


def path_ok(sim, b, text, absent, root):
	names = sim.file_names(b)
	if not names:
		return text == absent
	pref = [f for f in names if f.flags & 1 or f.flags == 0] or names
	if root is not None:
		if text == '/.':
			return False
		if text == root:
			text = '/.'
	return any(expected_ok(sim, f, text)[0] for f in pref)


def match(cell, want):
	return cell == want if isinstance(want, str) else want.ok(cell)


def row_ok(got, want):
	return len(got) == len(want) and all(match(a, b) for a, b in zip(got, want))


def need(got, i, want, what):
	check(i < len(got), '%s: no row %d, expected %s', what, i, want)
	check(row_ok(got[i], want), '%s: row %d: got %s, expected %s', what, i, got[i], want)


HEAD = ['Source', 'MFT reference number', 'Is in use', 'Is directory', 'Log file sequence number', 'Path', '$SI M timestamp', '$SI A timestamp', '$SI C timestamp', '$SI E timestamp', '$SI USN value', '$FN M timestamp', '$FN A timestamp',
	'$FN C timestamp', '$FN E timestamp', '$OBJID timestamp', 'File size', 'ADS list', 'WSL M timestamp', 'WSL A timestamp', 'WSL CH timestamp']


def yn(v):
	return 'Y' if v else 'N'


def fn_times(f):
	return [Tm(f.m), Tm(f.a), Tm(f.c), Tm(f.e)]


def enrich(sim, d, indexes=True):
	"""Give the records of a simulated table more to report. Marks: A.si, A.objid, A.wsl, A.entries; Rec.planted, Rec.partial."""
	from checks.c20 import guid
	from checks.c30 import pack_eas
	for r in list(sim.recs.values()):
		if d.chance(60):
			r.lsn = d.u(64)
		if r.base or r.state != 'ok':
			continue
		for a in r.attrs:
			if a.type == 0x10 and d.chance(60):
				a.value = si(d)
		if d.chance(25):
			g = guid(d)
			sim.place(r, A(0x40, value=g + d.blob(d.pick((0, 48)))))
		if d.chance(10):
			sim.place(r, A(0x10, value=si(d)[:d.pick((72, 72, 31, d.uni(0, 31)))]))
		if d.chance(5):
			sim.place(r, A(d.pick((0x40, 0x90, 0x60, 0x70 if r.number != 3 else 0x60, 0xC0, 0xE0)), value=d.blob(d.uni(0, 15))))
		if d.chance(25):
			items = []
			for _ in range(d.uni(1, 3)):
				k = d.uni(0, 3)
				blk = struct.pack('<HHLLLLLLLQQQ', d.pick((0, 0, 0, 1)), d.pick((1, 1, 1, 2)), *([d.u(32) for _ in range(4)] + [d.int(0, 999999999) for _ in range(3)] + [d.int(0, 1 << 33) for _ in range(3)]))
				if k <= 1 and not any(x[0] == b'LXATTRB' for x in items):  # Names in a list are unique.
					items.append((b'LXATTRB', 0, blk if d.chance(90) else blk[:-d.uni(1, 20)]))
				else:
					items.append((d.pick((b'$LXUID', b'lxattrb', b'LXATTR', b'X', b'LXATTRB2', b'2LXATTRB')), 0, d.blob(d.uni(0, 60)) if d.bool() else blk))
			a = A(0xE0, value=pack_eas(d, items, end=d.pick(('zero', 'link')))[0])
			a.wsl = next((v for n, _, v in items if n == b'LXATTRB' and len(v) == 56 and v[:4] == b'\x00\x00\x01\x00'), None)
			sim.place(r, a)
		if r.is_dir and indexes and d.chance(60) or d.chance(3):
			ents, raw = [], []
			for _ in range(d.int(0, 3)):
				f = ntfs.gen_fn(d, r.ref() if d.chance(70) else d.u(64), d.name(1, 8), d.u(8))
				reference = d.u(64)
				raw.append(ntfs.index_entry(reference, f.value(), 0, d.u(64) if d.chance(20) else None))
				ents.append((reference, f))
			if d.chance(10):
				raw.insert(d.uni(0, len(raw)), ntfs.index_entry(d.u(64), d.blob(d.uni(1, 66))))
			raw.append(ntfs.index_end())
			if d.chance(5) and len(raw) > 1:
				# The value ends early.
				raw[-1] = raw[-1][:d.uni(1, 15)]
			t = 0x30 if d.chance(90) else d.pick((0, 0x10, 0x90))
			a = A(0x90, name='$I30' if t == 0x30 else '$Q', value=ntfs.index_root_value(raw, type_code=t))
			a.entries = ents if t == 0x30 else None
			if not sim.place(r, a) and ents:
				a = A(0x90, name='$I30', value=ntfs.index_root_value(raw[-1:]))
				a.entries = []
				sim.place(r, a)
	plant_slack(sim, d)


def plant_slack(sim, d, percent=20):
	from checks.c11 import gen_value, candidates, PRINTABLE
	for r in sim.recs.values():
		r.planted, r.partial = [], None
		if r.state != 'ok' or not d.chance(percent):
			continue
		part = None
		head = b'\xFF\xFF' * d.uni(0, 4)
		if d.chance(40):
			part = ''.join(PRINTABLE[d.uni(0, len(PRINTABLE) - 1)] for _ in range(d.int(2, 20)))
			head = b'\xFF\xFF' * d.uni(4, 8) + ntfs.u16(part) + b'\x00\x00' * d.uni(0, 3)
			if len(part) < 5:
				part = None
		vals, body, pos = [], b'', []
		for _ in range(d.uni(1, 2)):
			f = gen_value(d)
			if d.chance(60):
				f.parent = d.pick(list(sim.recs.values())).ref()
			vals.append(f)
			pos.append(len(body) + 8)
			body += f.value()
			body += b'\x00' * (-len(body) % 8)
		r.slack = head + body
		prot, plain, end = r.segment(sim.size).build()
		piece = plain[end + 4:]
		at = piece.find(body)
		if at < 0 or candidates(piece) != [at + x for x in pos]:
			r.slack = b''
			continue
		r.planted, r.partial = vals, part


def si(d):
	n = d.pick((72, 72, 72, 48))
	return ntfs.si_value(*[ntfs.gen_ft(d) for _ in range(4)], d.u(32), d.u(32), d.u(32), d.u(32), d.u(32), d.u(32), d.u(64), d.u(64), n)


def si_cells(v):
	c, m, e, a = struct.unpack_from('<QQQQ', v)
	return [Tm(m), Tm(a), Tm(c), Tm(e), str(struct.unpack_from('<Q', v, 64)[0]) if len(v) >= 72 else '']


def check_mft(sim, got, i, tag=None):
	"""Compare rows from i with the table; returns (next row, statistics)."""
	from checks.c20 import gtime
	src = lambda s: s if tag is None else '%s (%s)' % (s, tag)
	st = {'names': 0, 'index': 0, 'slack': 0, 'partial': 0, 'nameless': 0}
	for b in sim.bases():
		if not sim.names_ok(b):
			continue
		what = 'record %d%s' % (b.number, '' if tag is None else ' (%s)' % tag)
		atts = sim.file_attrs(b)
		first = lambda f: next((a for a in atts if f(a)), None)
		x = first(lambda a: a.type == 0x10 and len(a.value) >= 32)
		sis = si_cells(x.value) if x else [''] * 5
		x = first(lambda a: a.type == 0x40 and len(a.value) >= 16 and gtime(a.value[:16]) is not None)
		oid = Tm(gtime(x.value[:16]), GEPOCH) if x else ''
		x = first(lambda a: a.type == 0x80 and a.name is None and (a.runs is None or a.lowest == 0))
		size = '?' if x is None else str(x.size if x.runs is not None else len(x.value))
		ads = ' '.join(sorted(set(a.name for a in atts if a.type == 0x80 and a.name is not None)))
		x = first(lambda a: a.type == 0xE0 and getattr(a, 'wsl', None))
		wsl = ['', '', '']
		if x:
			ns = struct.unpack_from('<LLL', x.wsl, 20)
			s = struct.unpack_from('<QQQ', x.wsl, 32)
			wsl = [Unix(s[1], ns[1]), Unix(s[0], ns[0]), Unix(s[2], ns[2])]
		head = [src('File record'), str(b.number | b.seq << 48), yn(b.in_use), yn(b.is_dir), str(b.lsn)]
		names = sim.file_names(b)
		dirpath = None
		if not names:
			need(got, i, head + [''] + sis + [''] * 4 + [oid, size, ads] + wsl, what)
			i += 1
			st['nameless'] += 1
		left = list(names)
		shorts = False
		for k in range(len(names)):
			check(i < len(got), '%s: a row is missing', what)
			fit = [f for f in left if row_ok(got[i], head + [Path(sim, f)] + sis + fn_times(f) + [oid, size, ads] + wsl)]
			check(fit, '%s: row %d: got %s, expected %s', what, i, got[i], head + [[Path(sim, f) for f in left]] + sis + fn_times(left[0]) + [oid, size, ads] + wsl)
			# Rows with equal cells are interchangeable: take a long name first.
			fit.sort(key=lambda f: not (f.flags & 1 or f.flags == 0))
			f = fit[0]
			left.remove(f)
			short = not (f.flags & 1 or f.flags == 0)
			check(short or not shorts, '%s: a long name after a short one', what)
			shorts = shorts or short
			if dirpath is None:
				dirpath = got[i][5]
			i += 1
			st['names'] += 1
		x = first(lambda a: a.type == 0x90 and getattr(a, 'entries', None) is not None)
		if b.is_dir and x:
			base = UNKNOWN if dirpath is None else '' if dirpath == '/.' else dirpath
			for reference, f in x.entries:
				need(got, i, [src('Index record'), str(reference), '?', yn(f.fattr & 0x10000000), '', base + '/' + f.name] + [''] * 5 + fn_times(f) + ['', str(f.size), '', '', '', ''], what + ' (index)')
				i += 1
				st['index'] += 1
		for s in [b] + sim.extensions(b):
			if getattr(s, 'planted', ()):
				_, plain, end = s.segment(sim.size).build()
				if plain.find(s.slack, end) < 0:
					raise Discard()  # Moved and cut by a later change of the attributes.
			for f in getattr(s, 'planted', ()):
				need(got, i, [src('Slack'), '?', '?', yn(f.fattr & 0x10000000), '', Under(sim, f.parent, f.name)] + [''] * 5 + fn_times(f) + ['', str(f.size), '', '', '', ''], what + ' (slack)')
				i += 1
				st['slack'] += 1
			if getattr(s, 'partial', None):
				need(got, i, [src('Slack'), '?', '?', '?', '', SAME + s.partial] + [''] * 5 + ['?'] * 4 + ['', '?', '', '', '', ''], what + ' (partial name)')
				i += 1
				st['partial'] += 1
	return i, st
