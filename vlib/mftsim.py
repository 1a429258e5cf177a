"""Simulated life of a file table: create, link, split, delete, reuse, damage.

The simulator keeps its own description of every record; the oracles below are
computed from that description and never by calling the parser.
"""
import struct
from vlib import ntfs
from vlib.ntfs import ref, Record, attr_resident, attr_nonresident, FN

ORPHAN = '<Orphan>'
ROOT = 5
# Alphabets whose characters have one-to-one upper-case mappings.
NAMES = ('abcdefgh', 'ABCxyz019 ._-$~', '\u0416\u0434\u00e9\u4e2d\u3042', 'a\U0001f600b\U00010348', 'Aa')


# Characters that some case conversions expand or mix up, although they are different in names.
TRICKY = ('\u00dfsS', '\ufb01fiFI', '\u212akK', '\u212b\u00e5\u00c5', '\u0130i')


def up(name):
	"""Upper case, a character at a time."""
	return ''.join(c.upper() if len(c.upper()) == 1 else c for c in name)


class A(object):
	"""One attribute as stored."""

	def __init__(self, type, name=None, value=None, runs=None, lowest=0, highest=0, size=0, alloc=0, fn=None):
		self.type, self.name, self.value, self.runs, self.lowest, self.highest, self.size, self.alloc, self.fn = type, name, value, runs, lowest, highest, size, alloc, fn
		if fn is not None:
			self.value = fn.value()

	def raw(self, instance):
		if self.runs is None:
			return attr_resident(self.type, self.value, self.name, instance)
		return attr_nonresident(self.type, self.runs, self.lowest, self.highest, self.alloc, self.size, name=self.name, instance=instance)

	def key(self):
		if self.runs is None:
			return ('r', self.type, self.name, self.value)
		return ('n', self.type, self.name, tuple(self.runs), self.lowest, self.highest, self.size)


class Rec(object):
	def __init__(self, number, seq, in_use=True, is_dir=False, base=0):
		self.number, self.seq, self.in_use, self.is_dir, self.base = number, seq, in_use, is_dir, base
		self.attrs = []
		self.state = 'ok'  # ok, gone (segment not parseable), badattr (attributes unreadable after the good ones)
		self.slack = b''
		self.usn = 1
		self.short = False
		self.lsn = 0
		self.children = []  # live simulation only

	@property
	def gen(self):
		"""The sequence number of the (last) allocated generation."""
		if self.in_use:
			return self.seq
		if self.seq >= 2:
			return self.seq - 1
		if self.seq == 0:
			return 0xFFFF
		return self.seq

	def ref(self):
		return ref(self.number, self.gen)

	def names(self):
		return [a.fn for a in self.attrs if a.fn is not None]

	def room(self, size):
		used = sum(len(a.raw(0)) for a in self.attrs)
		return Record(size=size, short=self.short).room() - used

	def segment(self, size):
		raws = [a.raw(i) for i, a in enumerate(self.attrs)]
		if self.state == 'shortname':
			raws.append(attr_resident(0x30, b'\x05' * self.how, None, 99))
		if self.state == 'badattr':
			raws.append(struct.pack('<LLBBHHHLHBB', 0x80, 0xFFF8, 0, 0, 0, 0, 0, 8, 24, 0, 0) + b'\x00' * 8)
		flags = (1 if self.in_use else 0) | (2 if self.is_dir else 0)
		return Record(self.number, self.seq, flags, self.base, attrs=raws, size=size, usn=self.usn, short=self.short, slack=self.slack, lsn=self.lsn, next_instance=len(raws))

	def bytes(self, size, d=None):
		raw = bytearray(self.segment(size).build()[0])
		if self.state == 'gone':
			how = self.how
			if how == 0:
				raw[510] ^= 0xFF
			elif how == 1:
				raw[0:4] = b'\x00' * 4
			elif how == 2:
				raw = bytearray(size)
			elif how == 3:
				struct.pack_into('<L', raw, 28, size * 2)
			else:
				raw[size - 2] ^= 0x55
				raw[510] ^= 0x55
		return bytes(raw)


class Sim(object):
	names = NAMES
	far = False  # Use record numbers beyond 65535 too.
	index_streams = True  # Make index allocations with arbitrary runs.

	def __init__(self, d, size=None, max_number=48):
		self.d = d
		self.size = size or d.pick((1024, 4096))
		self.recs = {}
		self.max_number = max_number
		ft = ntfs.FT_2000
		si = ntfs.si_value(ft, ft, ft, ft)
		self.si = si
		def sysrec(number, name, is_dir=False):
			r = Rec(number, number or 1, True, is_dir)
			r.attrs = [A(0x10, value=si), A(0x30, fn=FN(ref(5, 5), name, 3))]
			self.recs[number] = r
			return r
		sysrec(0, '$MFT')
		sysrec(3, '$Volume').attrs += [A(0x60, value=ntfs.u16('vol')), A(0x70, value=ntfs.volinfo_value())]
		sysrec(5, '.', True)
		self.next_number = d.pick((6, 16, 24))

	# --- live operations ---

	def dirs(self):
		return [r for r in self.recs.values() if r.is_dir and r.in_use and not r.base]

	def files(self):
		return [r for r in self.recs.values() if r.in_use and not r.base and r.number not in (0, 3, 5)]

	def taken(self, dir_ref):
		return set(up(fn.name) for r in self.recs.values() if not r.base or True for fn in r.names() if fn.parent == dir_ref)

	def unique_name(self, dir_ref, lo=1, hi=8):
		taken = self.taken(dir_ref)
		name = self.d.name(lo, hi, self.names)
		if name.strip('.') == '' or name in ('.', '..'):
			name = 'n' + name
		k = 0
		base = name
		while up(name) in taken:
			k += 1
			name = base + str(k)
		return name

	def alloc(self, is_dir=False, base=0):
		d = self.d
		free = [r for r in self.recs.values() if not r.in_use and r.state == 'ok']
		if free and (d.chance(50) or self.next_number >= self.max_number):
			old = d.pick(free)
			seq = old.seq or 1
			r = Rec(old.number, seq, True, is_dir, base)
		elif self.far and d.bool() and any(n < 65536 and n + 65536 not in self.recs for n in self.recs):
			low = [n for n in sorted(self.recs) if n < 65536 and n + 65536 not in self.recs]
			r = Rec(65536 + d.pick(low), d.pick((1, 2, d.int(1, 0xFFFF))), True, is_dir, base)
		elif self.next_number < self.max_number:
			if d.chance(10):
				self.next_number += d.uni(1, 3)
			r = Rec(self.next_number, d.pickw(((5, 1), (1, 2), (1, 0xFFFF), (1, 0xFFFE), (2, None))) or d.int(1, 0xFFFF), True, is_dir, base)
			self.next_number += 1
		else:
			return None
		r.usn = d.int(1, 0xFFFF) if d.chance(20) else 1
		r.short = d.chance(10)
		if d.chance(10):
			r.slack = b'\xEE' * 64
		self.recs[r.number] = r
		return r

	def new_fns(self, parent_ref, extra=False):
		d = self.d
		name = self.unique_name(parent_ref)
		k = d.uni(0, 4)
		mk = (lambda n, f: ntfs.gen_fn(d, parent_ref, n, f)) if d.chance(15) else (lambda n, f: FN(parent_ref, n, f))
		if k == 0:
			return [mk(name, 3)]
		if k == 1:
			return [mk(name, 0)]
		if k == 2:
			return [mk(name, 1)]
		sn = 'S%d~1' % d.uni(0, 99)
		while sn.upper() in self.taken(parent_ref) or sn.upper() == name.upper():
			sn += 'x'
		pair = [mk(name, d.pick((1, 1, 0))), mk(sn, 2)]
		if d.bool():
			pair.reverse()
		return pair

	def place(self, rec, attr):
		"""Store an attribute in the base record or in an extension record."""
		d = self.d
		cands = [rec] + rec.children
		if d.chance(25) or rec.room(self.size) < len(attr.raw(0)):
			t = d.pick(cands)
			if t is rec or t.room(self.size) < len(attr.raw(0)):
				t = self.alloc(base=rec.ref())
				if t is None:
					t = rec
				else:
					rec.children.append(t)
		else:
			t = rec
		if t.room(self.size) < len(attr.raw(0)):
			return False
		t.attrs.insert(d.uni(0, len(t.attrs)), attr)
		return True

	def create(self, is_dir=False, parent=None):
		d = self.d
		p = parent or d.pick(self.dirs())
		r = self.alloc(is_dir)
		if r is None:
			return None
		if d.chance(80):
			r.attrs.append(A(0x10, value=self.si))
		for fn in self.new_fns(p.ref()):
			if not self.place(r, A(0x30, fn=fn)):
				break
		if not is_dir and d.chance(40):
			self.place(r, A(0x80, name=None if d.bool() else d.name(1, 5), value=d.blob(d.int(0, 40))))
		return r

	def link(self):
		d = self.d
		files = [r for r in self.files() if not r.is_dir]
		if not files:
			return
		r = d.pick(files)
		p = d.pick(self.dirs())
		if d.chance(40) and r.names():
			# The same name in another directory.
			name = d.pick(r.names()).name
			if name.upper() not in self.taken(p.ref()):
				self.place(r, A(0x30, fn=FN(p.ref(), name, d.pick((0, 1, 3)))))
				return
		self.place(r, A(0x30, fn=FN(p.ref(), self.unique_name(p.ref()), d.pick((0, 1, 3)))))

	def stream(self, rec=None, merge_only=False):
		"""Give a file a non-resident stream split over several records."""
		d = self.d
		if rec is None:
			files = self.files()
			if not files:
				return
			rec = d.pick(files)
		t = 0x80 if not d.chance(25) or not self.index_streams else 0xA0
		name = None if d.bool() else d.name(1, 5, NAMES)
		if t == 0xA0:
			name = '$I30'
		allrecs = [rec] + rec.children
		if any(a.type == t and a.name == name for x in allrecs for a in x.attrs):
			return
		runs = ntfs.gen_runs(d, d.int(1, 8), total=1 << 30, sparse=(t == 0x80))
		cuts = sorted(set(d.uni(1, len(runs)) for _ in range(d.uni(0, 3))) - {len(runs)})
		total = sum(l for _, l in runs)
		size = d.int(0, min(total * 512, (1 << 62)))
		self.put(rec, t, name, runs, size, size, cuts)

	def put(self, rec, t, name, runs, size, alloc, cuts=()):
		"""Store a non-resident stream, cut into pieces before the given runs; True if all of it was stored."""
		d = self.d
		pieces = []
		prev = 0
		for c in list(cuts) + [len(runs)]:
			pieces.append(runs[prev:c])
			prev = c
		low = 0
		atts = []
		for i, p in enumerate(pieces):
			ln = sum(l for _, l in p)
			a = A(t, name, runs=p, lowest=low, highest=low + ln - 1, size=size if i == 0 else 0, alloc=alloc if i == 0 else 0)
			if i > 0 and d.chance(10):
				a.size = a.alloc = d.int(0, 100)
			low += ln
			atts.append(a)
		for i in d.perm(len(atts)):
			a = atts[i]
			if len(atts) == 1:
				return self.place(rec, a)
			c = d.pick([rec] + rec.children + [None, None])
			if c is None or c.room(self.size) < len(a.raw(0)):
				c = self.alloc(base=rec.ref())
				if c is None:
					return False
				rec.children.append(c)
			if c.room(self.size) < len(a.raw(0)):
				return False
			c.attrs.insert(d.uni(0, len(c.attrs)), a)
		return True

	def free(self, r):
		r.in_use = False
		r.seq = (r.seq + 1) & 0xFFFF

	def delete(self):
		d = self.d
		cands = []
		for r in self.files():
			if r.is_dir:
				live = any(fn.parent == r.ref() for x in self.recs.values() if x.in_use and x is not r for fn in x.names())
				if live:
					continue
			cands.append(r)
		if not cands:
			return
		r = d.pick(cands)
		kids = list(r.children)
		self.free(r)
		for c in kids:
			if c.in_use and self.recs.get(c.number) is c:
				self.free(c)
		r.children = []

	def drop_child(self):
		"""An extension record is freed while the file stays."""
		d = self.d
		cands = [r for r in self.files() if r.children]
		if not cands:
			return
		r = d.pick(cands)
		c = r.children.pop(d.uni(0, len(r.children) - 1))
		if self.recs.get(c.number) is c and c.in_use:
			self.free(c)

	def history(self, lo=2, hi=24):
		d = self.d
		for _ in range(d.int(lo, hi)):
			k = d.uni(0, 11)
			if k <= 3:
				self.create()
			elif k <= 5:
				self.create(True)
			elif k == 6:
				self.link()
			elif k <= 8:
				self.stream()
			elif k <= 10:
				self.delete()
			else:
				self.drop_child()

	# --- damage ---

	def damage(self, n=1, kinds=('gone', 'badattr', 'shortname', 'nameless', 'cycle', 'notdir', 'badparent', 'stale')):
		d = self.d
		hit = []
		for _ in range(n):
			cands = [r for r in self.recs.values() if r.number not in (0, 3, 5)]
			if not cands:
				return hit
			dirs = [r for r in cands if r.is_dir]
			r = d.pick(dirs) if dirs and d.chance(60) else d.pick(cands)
			k = d.pick(kinds)
			if k == 'gone':
				r.state = 'gone'
				r.how = d.uni(0, 4)
			elif k == 'badattr':
				if r.room(self.size) >= 32:
					r.state = 'badattr'
			elif k == 'shortname':
				if r.room(self.size) >= 104 + len(r.slack):
					r.state = 'shortname'
					r.how = d.uni(0, 65)
			elif k == 'nameless':
				r.attrs = [a for a in r.attrs if a.fn is None]
			elif k == 'notdir':
				r.is_dir = False
			elif k in ('cycle', 'badparent'):
				fns = [a for a in r.attrs if a.fn is not None]
				if fns:
					if k == 'cycle':
						t = d.pick(dirs) if dirs else r
						new = t.ref()
					else:
						t = d.pick(cands)
						new = d.pick((ref(t.number, (t.gen + 1) & 0xFFFF), ref(self.max_number + 100, 1), t.ref(), ref(t.number, t.seq), ref(t.number, 0)))
					for a in fns:
						a.fn.parent = new
						a.value = a.fn.value()
			elif k == 'stale':
				if r.base:
					t = d.pick(cands)
					r.base = d.pick((ref(t.number, (t.gen - 1) & 0xFFFF), ref(t.number, t.gen), ref(self.max_number + 5, 3), ref(t.number, (t.gen + 1) & 0xFFFF))) or 1
			hit.append((k, r.number))
		return hit

	# --- final state ---

	def build(self, extra=0):
		n = max(self.recs) + 1 + extra
		out = bytearray(n * self.size)
		for num, r in self.recs.items():
			out[num * self.size:(num + 1) * self.size] = r.bytes(self.size)
		self.count = n
		return bytes(out)

	def readable(self, number):
		r = self.recs.get(number)
		return r if r is not None and r.state != 'gone' else None

	def extensions(self, base):
		"""All and only the extension records referring to this base (number and generation)."""
		return [r for num, r in sorted(self.recs.items()) if r.state != 'gone' and r.base == base.ref()]

	def file_ok(self, base):
		return all(r.state == 'ok' for r in [base] + self.extensions(base))

	def names_ok(self, base):
		"""The attributes can be listed; names which are too short do not count."""
		return all(r.state in ('ok', 'shortname') for r in [base] + self.extensions(base))

	def file_attrs(self, base):
		return [a for r in [base] + self.extensions(base) for a in r.attrs]

	def bases(self, in_use_only=False):
		return [r for num, r in sorted(self.recs.items()) if r.state != 'gone' and not r.base and (r.in_use or not in_use_only)]

	def file_names(self, base):
		return [a.fn for a in self.file_attrs(base) if a.fn is not None]

	def parent_of(self, reference):
		"""The directory record a reference leads to, or None."""
		num, seq = reference & 0xFFFFFFFFFFFF, reference >> 48
		p = self.readable(num)
		if p is None or p.base or p.gen != seq:
			return None
		return p

	def path_of(self, fn):
		"""(kind, components from the top) where kind is 'ok', 'orphan' or 'cycle'."""
		comps = [fn.name]
		cur = fn.parent
		seen = set()
		while True:
			num = cur & 0xFFFFFFFFFFFF
			if num == ROOT:
				return 'ok', comps[::-1]
			p = self.parent_of(cur)
			if p is None or not p.is_dir or not self.names_ok(p):
				return 'orphan', comps[::-1]
			names = self.file_names(p)
			if not names:
				return 'orphan', comps[::-1]
			if num in seen:
				return 'cycle', comps[::-1]
			seen.add(num)
			pref = [f for f in names if f.flags & 1 or f.flags == 0]
			best = pref[0] if pref else names[0]
			comps.append(best.name)
			cur = best.parent
