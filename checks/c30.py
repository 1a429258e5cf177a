"""C30: extended attributes and WSL metadata."""
import struct
from datetime import datetime, timedelta
from checks import Test
from vlib.engine import *
from dfir_ntfs import Attributes, WSL

RULE = ('A case writes a list of extended attributes (any names, flags, value sizes, alignment, both ways to end the list), a Linux metadata block or a packed list of Linux extended attributes, decodes it, and '
	'decodes it again cut at every or at a generated point and with one inconsistent field. Non-trivial: two or more items, or a cut inside an item. Distinct by content.')


def gen_eas(d):
	n = d.int(0, 6)
	items = []
	for _ in range(n):
		name = d.pick((b'$LXUID', b'LXATTRB', b'LXXATTR', b'$KERNEL.PURGE.ESBCACHE')) if d.bool() else d.blobnz(d.int(0, 30) if d.chance(90) else 255)
		if d.chance(5):
			name = d.blob(d.int(0, 30))  # Only the last byte must be zero.
		val = d.blob(d.pick((0, 1, 4, 56, 255, 256, d.int(0, 600), 65535 if d.chance(2) else 5)))
		items.append((name, d.u(8), val))
	return items


def pack_eas(d, items, align=None, end=None):
	out = b''
	spans = []
	align = d.pick((4, 4, 1, 8)) if align is None else align
	end = d.pick(('zero', 'link', 'zeropad')) if end is None else end
	for i, (name, fl, val) in enumerate(items):
		body = struct.pack('<BBH', fl, len(name), len(val)) + name + b'\x00' + val
		size = 4 + len(body)
		padded = size + (-size % align)
		last = i == len(items) - 1
		nxt = padded
		pad = b'\x00' * (padded - size)
		if last:
			if end == 'zero':
				nxt, pad = 0, b''
			elif end == 'zeropad':
				nxt, pad = 0, d.blob(d.int(0, 40))
		spans.append((len(out), len(out) + size, len(out) + (nxt if nxt else size)))
		out += struct.pack('<L', nxt) + body + pad
	return out, spans


def norm(it):
	return [(bytes(a), b, bytes(c)) for a, b, c in it]


def t_ea(d, r):
	items = gen_eas(d)
	raw, spans = pack_eas(d, items)
	want = [(n + b'\x00', f, v) for n, f, v in items]
	for kind in (bytes, bytearray):
		eq(norm(Attributes.EA(kind(raw)).data_parsed()), want, 'extended attributes')
	# Cut anywhere: only complete leading items, and all of those whose link still makes sense.
	for _ in range(4):
		cut = d.int(0, len(raw))
		got = norm(Attributes.EA(raw[:cut]).data_parsed())
		must = sum(1 for s in spans if max(s[1], s[2]) <= cut)
		may = sum(1 for s in spans if s[1] <= cut)
		check(must <= len(got) <= may and got == want[:len(got)], 'cut at %d of %d: %d items, expected %d to %d leading ones', cut, len(raw), len(got), must, may)
	# One inconsistent field.
	if items:
		k = d.uni(0, len(items) - 1)
		o = spans[k][0]
		b = bytearray(raw)
		f = d.uni(0, 2)
		if f == 0:
			b[o + 8 + len(items[k][0])] = d.int(1, 255)  # The terminator of the name.
		elif f == 1:
			struct.pack_into('<L', b, o, d.int(len(raw) - o + 1, 0xFFFFFFFF))
		else:
			v = len(raw) - o - 9 - len(items[k][0]) + 1
			if v <= 0xFFFF:
				struct.pack_into('<H', b, o + 6, d.int(max(0, v), 0xFFFF))
			else:
				f = None
		if f is not None:
			eq(norm(Attributes.EA(bytes(b)).data_parsed()), want[:k], 'items before a damaged one (%d, field %d)' % (k, f))
	if len(items) >= 2:
		r.nontrivial(raw)
	r.sample('items=%s' % [(n[:12], f, len(v)) for n, f, v in items[:4]])


def exact(s, ns):
	try:
		base = datetime(1970, 1, 1) + timedelta(seconds=s)
		lo = base + timedelta(microseconds=ns // 1000)
	except OverflowError:
		return None
	return lo


def time_fine(got, s, ns):
	lo = exact(s, ns)
	if lo is None:
		return got is None
	if got == lo:
		return True
	if got is None:
		return lo >= datetime(9999, 12, 31, 23, 59, 59, 999999)
	return ns % 1000 and got - lo == timedelta(microseconds=1)


def t_lxattrb(d, r):
	f = [d.u(32) for _ in range(4)]
	ns = [d.int(0, 999999999) if d.chance(90) else d.u(32) for _ in range(3)]
	s = [d.int(0, 1 << 33) if d.chance(80) else d.u(64) for _ in range(3)]
	raw = struct.pack('<HHLLLLLLLQQQ', 0, 1, *(f + ns + s))
	for kind in (bytes, bytearray):
		x = WSL.LXATTRB(kind(raw))
		eq((x.get_mode(), x.get_uid(), x.get_gid(), x.get_rdev()), tuple(f), 'numbers')
		for g, a, b, n in zip((x.get_atime(), x.get_mtime(), x.get_chtime()), s, ns, ('accessed', 'modified', 'changed')):
			check(time_fine(g, a, b), '%s time: %r for %d s %d ns', n, g, a, b)
	k = d.uni(0, 3)
	if k == 0:
		bad = raw[:d.int(0, 55)]
	elif k == 1:
		bad = raw + d.blob(d.int(1, 20))
	elif k == 2:
		bad = struct.pack('<H', d.int(1, 0xFFFF)) + raw[2:]
	else:
		v = d.u(16)
		bad = raw[:2] + struct.pack('<H', v if v != 1 else 2) + raw[4:]
	raises(ValueError, WSL.LXATTRB, 'an invalid block (%d)' % k, bad)
	# Through the extended attribute.
	lst, _ = pack_eas(d, [(b'X', 1, d.blob(d.int(0, 9))), (b'LXATTRB', 0, raw)])
	v = [v for n, _, v in Attributes.EA(lst).data_parsed() if bytes(n) == b'LXATTRB\x00']
	eq(len(v), 1, 'LXATTRB values')
	eq(WSL.LXATTRB(v[0]).get_mtime(), WSL.LXATTRB(raw).get_mtime(), 'time through the list')
	r.nontrivial(raw)
	r.sample('mode=%x uid=%d times=%s/%s' % (f[0], f[1], s, ns))


def t_lxxattr(d, r):
	n = d.int(1, 6)
	items = []
	for _ in range(n):
		name = (b'user.' + d.blobnz(d.int(1, 40))) if d.chance(90) else d.blobnz(d.int(2, 255))
		items.append((name, d.blob(d.pick((0, 1, 8, d.int(0, 300), 65535 if d.chance(2) else 3)))))
	out = struct.pack('<HH', 0, 1)
	align = d.pick((1, 4, 8))
	spans = []
	tail = d.chance(20)
	for i, (name, val) in enumerate(items):
		size = 7 + len(name) + len(val)
		last = i == n - 1
		padded = size + (-size % align)
		if padded < 9:
			padded = 9
		nxt = 0 if last and not tail else padded
		start = len(out)
		out += struct.pack('<LHB', nxt, len(val), len(name)) + name + val
		spans.append((start, len(out), start + (nxt or size)))
		if nxt:
			out += b'\x00' * (padded - size)
	if len(out) < 12:
		out = out.ljust(12, b'\x00')
	for kind in (bytes, bytearray):
		got = [(bytes(a), bytes(b)) for a, b in WSL.LXXATTR(kind(out)).extended_attributes()]
		eq(got, items, 'Linux extended attributes')
	for _ in range(4):
		cut = d.int(0, len(out))
		if cut < 12:
			raises(ValueError, WSL.LXXATTR, 'a list of %d bytes' % cut, out[:cut])
			continue
		got = [(bytes(a), bytes(b)) for a, b in WSL.LXXATTR(out[:cut]).extended_attributes()]
		must = sum(1 for s in spans if max(s[1], s[2]) <= cut)
		may = sum(1 for s in spans if s[1] <= cut)
		check(must <= len(got) <= may and got == items[:len(got)], 'cut at %d of %d: items %r, expected %d to %d leading ones', cut, len(out), [len(x[1]) for x in got], must, may)
	# One inconsistent field: only the items before it are left.
	i = d.uni(0, n - 1)
	o, body, nxt = spans[i]
	b = bytearray(out)
	f = d.uni(0, 2)
	room = (nxt if i < n - 1 or tail else len(out)) - o - 7
	if f == 0:
		b[o + 6] = 0
	elif f == 1 and room - len(items[i][0]) < 0xFFFF:
		struct.pack_into('<H', b, o + 4, d.pick((0xFFFF, d.int(room - len(items[i][0]) + 1, 0xFFFF), room - len(items[i][0]) + 1)))
	elif f == 2:
		struct.pack_into('<L', b, o, d.int(1, 8))
	if bytes(b) != out:
		got = [(bytes(x), bytes(y)) for x, y in WSL.LXXATTR(b).extended_attributes()]
		eq(got, items[:i], 'items before a damaged one (%d of %d, field %d)' % (i, n, f))
	k = d.uni(0, 1)
	if k == 0:
		bad = struct.pack('<H', d.int(1, 0xFFFF)) + out[2:]
	else:
		v = d.u(16)
		bad = out[:2] + struct.pack('<H', v if v != 1 else 2) + out[4:]
	raises(ValueError, WSL.LXXATTR, 'an invalid header', bad)
	r.nontrivial(out)
	r.sample('items=%s' % [(a[:12], len(b)) for a, b in items[:4]])


TESTS = [
	Test('ea', t_ea, 200000, shards=3, qsec=25),
	Test('lxattrb', t_lxattrb, 200000, shards=2, qsec=25),
	Test('lxxattr', t_lxxattr, 200000, shards=3, qsec=25),
]
