"""C22: FAT directory entries."""
import struct
from datetime import date, datetime, timedelta
from checks import Test
from vlib.engine import *
from vlib import fat as W
from vlib import fatdir as D
from dfir_ntfs.addons import FAT as F

RULE = ('Directories of generated entries written by an independent encoder: live and deleted short and long entries, damaged and left-over long pieces, labels, invalid names and attributes, an end mark followed by '
	'remnants, several code pages; each case is compared entry by entry with a model of the documented rules. Non-trivial: a long name of two or more pieces, a deleted entry, a left-over piece or a rejected entry. '
	'Distinct by directory bytes.')

F.WARN_FUNC = lambda *a, **k: None


def run(d, r, raw, want, enc, is32, what):
	got = list(F.DirectoryEntries(raw, is32).entries(enc))
	D.compare(got, want, what)
	short = list(F.DirectoryEntries(raw, is32).entries(enc, True))
	D.compare(short, D.short_only(want), what + ', short names only')


def t_dir(d, r):
	is32 = d.bool()
	enc = d.pick(('ascii', 'cp437', 'cp866', 'cp1251', 'latin-1', 'utf-8'))
	entries = D.gen_dir(d, is32, d.pick((3, 8, 20)))
	raw = b''.join(e.raw for e in entries)
	if d.chance(70) or len(raw) % 512 or not raw:
		pad = d.pick((b'\x00', b'\x00', b'\xE5'))
		raw = raw.ljust(max(512, W.cdiv(len(raw), 512) * 512 + d.pick((0, 0, 512))), pad)
	want = D.model([raw[i:i + 32] for i in range(0, len(raw), 32)], enc, is32)
	# What was intended for the complete, undisturbed entries must also come out of the model.
	D.intended(entries, want, enc)
	run(d, r, raw, want, enc, is32, 'directory')
	kinds = set(e.kind for e in entries)
	for k in kinds:
		r.label(k)
	if kinds & {'long', 'deleted', 'orphan', 'label', 'bad'}:
		r.nontrivial(raw)
	r.sample('%d entries: %s' % (len(entries), [D.brief(w) for w in want[:4]]))


def t_soup(d, r):
	"""Entries with independently drawn fields in any order."""
	is32 = d.bool()
	enc = d.pick(('ascii', 'cp437', 'latin-1'))
	names = [D.gen_short(d)[0] for _ in range(d.int(1, 3))]
	pieces = []
	for _ in range(d.pick((16, 32))):
		k = d.pickw([(60, 'l'), (30, 's'), (4, 'z'), (6, 'x')])
		if k == 'l':
			order = d.pick((0x41, 0x42, 0x43, 1, 2, 3, 1, 0xE5, 0xE5, 0x00, 0x54, 0x55, 0x40, 20, 21, 0x81, d.u(8)))
			cs = W.checksum(d.pick(names)) if d.chance(90) else d.u(8)
			u = [bytes([d.int(65, 90), 0]) for _ in range(13)]
			if d.chance(30):
				k2 = d.int(0, 12)
				u[k2] = b'\x00\x00'
				for j in range(k2 + 1, 13):
					u[j] = b'\xFF\xFF'
			if d.chance(5):
				u[d.int(0, 12)] = d.pick((d.blob(2), b'\x00\xD8', b'\xFF\xDF', b'\x3D\xD8'))
			pieces.append(W.long_piece(order, cs, u, attr=0x0F | d.pick((0, 0, 0x40, 0x80, 0xC0)), typ=0 if d.chance(95) else d.u(8), cl=d.pick((0, 0, d.u(16)))))
		elif k == 's':
			n = bytearray(d.pick(names))
			if d.chance(25):
				n[0] = d.pick((0xE5, 0xE5, 0x00, 0x05))
			pieces.append(W.short_entry(n, d.pick((0, 0x20, 0x10, 0x08, 0x18, 0x28, d.u(8))), d.pick((0, 8, 0x10, 0x18, d.u(8))), d.u(8), d.u(16), d.u(16), d.u(16), d.u(32), d.u(16), d.u(16), d.u(32)))
		elif k == 'z':
			pieces.append(d.pick((bytes(32), b'\xE5' * 32)))
		else:
			pieces.append(d.blob(32))
	raw = b''.join(pieces)
	want = D.model(pieces, enc, is32)
	run(d, r, raw, want, enc, is32, 'mixed entries')
	r.label('orphan', any(w[0] == 'orphan' for w in want))
	r.label('long', any(w[0] == 'file' and w[1]['long_name'] is not None for w in want))
	if len(want) > 1:
		r.nontrivial(raw)
	r.sample(str([D.brief(w) for w in want[:4]]))


def t_time(d, r):
	"""Dates and times: every encoded value, valid or not."""
	for _ in range(20):
		v = d.u(16)
		day, mon, year = v & 31, (v >> 5) & 15, 1980 + (v >> 9)
		try:
			want = date(year, mon, day)
		except ValueError:
			want = None
		eq(F.DecodeFATDate(v), want, 'date %04x' % v)
		s, m, h = (v & 31) * 2, (v >> 5) & 63, v >> 11
		got = F.DecodeFATTime(v)
		eq(None if got is None else (got.hour, got.minute, got.second, got.microsecond), (h, m, s, 0) if s < 60 and m < 60 and h < 24 else None, 'time %04x' % v)
		n = d.blob(11)
		eq(F.BuildChecksum(n), W.checksum(n), 'checksum')
		b = d.u(8)
		enc = b & 1 > 0
		pad = None
		if enc:
			x = b & 0xE4
			pad = ((x >> 5) << 1) | ((x >> 2) & 1)
		eq(F.ParseNTByte(b), (b & 8 > 0, b & 16 > 0, enc, enc and b & 2 > 0, pad), 'NT byte %02x' % b)
	r.nontrivial(v)
	r.sample('%04x' % v)


def t_bytes(d, r):
	"""Every byte value at one position of a short name or of a label."""
	name, base, ext = D.gen_short(d)
	pos = d.uni(0, 10)
	enc = d.pick(('ascii', 'cp437', 'latin-1'))
	lows = (d.bool(), d.bool())
	for v in range(256):
		n = bytearray(name)
		n[pos] = v
		n = bytes(n)
		ok = True
		for i, c in enumerate(n):
			if i == 0 and c in (0x00, 0x05):
				continue
			if c in D.FORBID or 0x61 <= c <= 0x7A or i == 0 and c == 0x20:
				ok = False
		dots = n.rstrip(b' ') in (b'.', b'..')
		ok = ok or dots
		eq(bool(F.ValidateShortName(n)), ok, 'validity of %r' % n)
		got = F.ParseShortName(n, enc, *lows)
		if not ok:
			eq(got, None, 'name %r' % n)
			continue
		first = b'_' if n[0] in (0, 0xE5) else b'\xE5' if n[0] == 5 else n[:1]
		b, e = [x.rstrip(b' ').decode(enc, errors='replace') for x in (first + n[1:8], n[8:])]
		b, e = b.lower() if lows[0] else b, e.lower() if lows[1] else e
		eq(got, b + '.' + e if e else b, 'name %r' % n)
	names = ((1, 'READ_ONLY'), (2, 'HIDDEN'), (4, 'SYSTEM'), (8, 'VOLUME_ID'), (16, 'DIRECTORY'), (32, 'ARCHIVE'))
	for v in range(256):
		eq(F.IsVolumeLabel(v), v & 0x18 == 8 and v & 0x3F != 0x0F, 'volume label by attributes %02x' % v)
		eq(F.ResolveFileAttributes(v), ' | '.join(x for b, x in names if v & b), 'attributes %02x' % v)
	eq(bool(F.ValidateShortName(name[:d.int(0, 10)])), False, 'validity of a short buffer')
	eq(bool(F.ValidateShortName(name + b'A')), False, 'validity of a long buffer')
	r.nontrivial(name, pos)
	r.sample('%r, byte %d' % (name, pos))


TESTS = [
	Test('bytes', t_bytes, 1600, 10000, shards=1),
	Test('dir', t_dir, 40000, 200000),
	Test('soup', t_soup, 50000, 300000),
	Test('time', t_time, 3000, 30000),
]
