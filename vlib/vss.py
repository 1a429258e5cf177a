"""Simulator and writer for volume shadow copies (no code shared with the parser under test).

A volume is a list of 0x4000-byte blocks of 32 sectors; the content of a sector is an opaque identifier, so a block keeps its identity when it is moved.
The simulated driver keeps, for the newest snapshot, what is about to be overwritten: whole blocks (regular entries), moved blocks (forwarders), sector-granular
changes made to a snapshot itself (overlays). The truth is the content at snapshot time, recorded independently of the entries.
"""
import struct, uuid, io

BLK = 0x4000
SPB = 32
GUID = bytes.fromhex('6B87083876C1484EB7AE04046E6CC752')
BITS = (BLK - 0x80) * 8
START_SECTOR = 15
INIT = 1 << 62
START = -1
BOOT = -2
ZERO = None


class SparseFile(object):
	"""A read-only file object whose 512-byte sectors are computed on demand. There is no way to write to it."""

	def __init__(self, sector, offset, size, before=b'\xEE'):
		self.sector = sector
		self.offset = offset
		self.size = size  # Whole file size.
		self.before = before
		self.pos = 0

	def seek(self, off, whence=0):
		if whence == 1:
			off += self.pos
		elif whence == 2:
			off += self.size
		if off < 0:
			raise ValueError('negative seek')
		self.pos = off
		return off

	def tell(self):
		return self.pos

	def read(self, n=None):
		if n is None or n < 0:
			n = self.size - self.pos
		n = max(0, min(n, self.size - self.pos))
		out = []
		pos = self.pos
		left = n
		while left > 0:
			if pos < self.offset:
				k = min(left, self.offset - pos)
				out.append(self.before * k)
			else:
				v = pos - self.offset
				o = v % 512
				k = min(left, 512 - o)
				out.append(self.sector(v // 512)[o:o + k])
			pos += k
			left -= k
		self.pos += n
		return b''.join(out)

	def close(self):
		pass


def sector_bytes(i):
	return struct.pack('<QQ', i & 0xFFFFFFFFFFFFFFFF, (~i) & 0xFFFFFFFFFFFFFFFF) * 32


def header(btype, rel, own, nxt, version=1):
	return (GUID + struct.pack('<LLQQQ', version, btype, rel, own, nxt)).ljust(0x80, b'\x00')


class Snap(object):
	pass


class Sim(object):
	def __init__(self, blocks, tail=0, two=False):
		"""blocks: the number of blocks; tail: the number of sectors missing from the last one."""
		self.blocks = blocks
		self.tail = tail
		self.two = two
		self.live = {}
		self.next_id = 1
		self.snaps = []
		self.reserved = set()  # Blocks of the volume never touched by the user (shadow copy storage).
		self.log = []

	# -- live volume

	@property
	def size(self):
		return self.blocks * BLK - self.tail * 512

	def init_ids(self, b):
		ids = [INIT + b * SPB + s for s in range(SPB)]
		if b == 0:
			for s in range(16):
				ids[s] = BOOT
			ids[START_SECTOR] = START
		return ids

	def get(self, b):
		return self.live.get(b) or self.init_ids(b)

	def new_ids(self, n):
		r = list(range(self.next_id, self.next_id + n))
		self.next_id += n
		return r

	# -- driver

	def top(self):
		return self.snaps[-1] if self.snaps else None

	def cow(self, b):
		t = self.top()
		if t is None:
			return
		if b in t.ctx:
			x = t.ctx.pop(b)
			t.entries.append(['reg', b, 'moved', list(self.get(b)), 0])
			t.has.add(x)
		elif b in t.has or b in t.eff:
			return
		else:
			t.entries.append(['reg', b, None, list(self.get(b)), 0])
			t.has.add(b)

	def write(self, b, mask):
		assert b not in self.reserved
		self.cow(b)
		ids = list(self.get(b))
		new = self.new_ids(SPB)
		for s in range(SPB):
			if mask >> s & 1 and ids[s] not in (BOOT, START):
				ids[s] = new[s]
		self.live[b] = ids

	def move(self, x, y):
		"""The content of block x is moved to block y (and the driver notices that)."""
		if x == y or 0 in (x, y) or y in self.reserved or x in self.reserved:
			return False
		if self.tail and self.blocks - 1 in (x, y):
			return False  # A partial block does not take part in moves.
		t = self.top()
		if t is not None:
			if t.ctx.get(x) == y:
				return False  # A move back to the original location is not simulated.
			self.cow(y)
			if x in t.ctx:
				w = t.ctx.pop(x)
				t.entries.append(['fwd', x, y, None, 0])
				t.ctx[y] = w
				t.targets.add(y)
			elif x not in t.has and x not in t.eff:
				t.entries.append(['fwd', x, y, None, 0])
				t.ctx[y] = x
				t.has.add(x)
				t.targets.add(y)
		self.live[y] = list(self.get(x))
		return True

	def overlay(self, k, b, mask):
		"""Sectors of a block are changed in the snapshot itself."""
		s = self.snaps[k]
		if b in s.targets or (b + 1) * BLK > s.size + BLK - 1 or b in self.reserved or mask == 0:
			return False
		ids = self.new_ids(SPB)
		s.entries.append(['ovl', b, None, ids, mask])
		o = s.overlays.setdefault(b, {})
		for i in range(SPB):
			if mask >> i & 1:
				o[i] = ids[i]
		return True

	def ignored(self, k, b):
		"""An entry marked as ignored."""
		self.snaps[k].entries.append(['ign', b, b, self.new_ids(SPB), 0xFFFFFFFF])

	def snapshot(self, guid, ts, flags, free, use_prev, pos, prio=0):
		"""free: blocks not in use at this time."""
		s = Snap()
		s.guid, s.ts, s.flags, s.pos, s.prio = guid, ts, flags, pos, prio
		s.size = self.size
		s.blocks = self.blocks
		prev = self.snaps[-1] if self.snaps else None
		free = set(b for b in free if b != 0)
		if prev is not None:
			for p in self.snaps:
				free -= p.targets
		s.cur = set(free)
		if prev is None:
			s.prev = None
			s.eff = set(free)
		elif use_prev:
			s.prev = set(prev.eff)
			s.prev_blocks = prev.blocks
			# Blocks outside the previous bitmap are judged by the current one only.
			lim = -(-bitmap_len(prev.size) // (BLK - 0x80)) * BITS
			s.eff = set(b for b in free if b in prev.eff or b >= lim)
			s.cur = set(b for b in free if b < lim or b in s.eff)
		else:
			s.prev = None
			s.eff = set(b for b in free if b in prev.eff)
			s.cur = set(s.eff)
		s.content = {b: list(v) for b, v in self.live.items()}
		s.entries = []
		s.ctx = {}
		s.has = set()
		s.targets = set()
		s.overlays = {}
		self.snaps.append(s)
		return s

	def drop_oldest(self):
		if len(self.snaps) > 1:
			self.snaps.pop(0)

	# -- truth

	def expected(self, k, b):
		"""-> ([32 ids or ZERO], [32 kinds]); kinds: 'data' (kept elsewhere), 'orig' (unchanged, read in place), 'null', 'any' (not defined)."""
		s = self.snaps[k]
		if b in s.eff or b in self.reserved:
			holder = None
			for t in self.snaps[k:]:
				if b in t.has:
					holder = t
					break
			if holder is not None:
				base = list(holder.content.get(b) or self.init_ids(b))
				kinds = ['data'] * SPB
			else:
				fl = set(bool(t.flags & 0x400) for t in self.snaps[k:])
				if fl == {True}:
					base, kinds = [ZERO] * SPB, ['null'] * SPB
				elif fl == {False}:
					base, kinds = list(self.get(b)), ['orig'] * SPB
				else:
					base, kinds = [ZERO] * SPB, ['any'] * SPB
				if b in self.reserved:
					kinds = [('any' if x == 'orig' else x) for x in kinds]
		else:
			base = list(s.content.get(b) or self.init_ids(b))
			kept = any(b in t.has for t in self.snaps[k:])
			kinds = [('data' if kept else 'orig')] * SPB
		for i, v in s.overlays.get(b, {}).items():
			base[i] = v
			kinds[i] = 'data'
		return base, kinds


def bitmap_len(size):
	nb = (size + BLK - 1) // BLK
	return (nb + 7) // 8


class Image(object):
	"""Lays out the metadata and the kept blocks of a simulated history."""

	def __init__(self, sim, d, alloc, volume_offset=0, storage_offset=0, alloc2=None, trailing=0, fs=b'NTFS'):
		"""alloc(): gives an unused block number of the storage area (of the storage volume when two volumes are used; alloc2 then gives blocks of the original volume)."""
		self.sim = sim
		self.d = d
		self.volume_offset = volume_offset
		self.storage_offset = storage_offset
		self.store = {}  # Storage-side blocks: number -> bytes or ids.
		self.local = {}  # Blocks of the original volume with metadata (two volumes).
		self.fs = fs
		self.trailing = trailing
		self.alloc = alloc
		self.alloc2 = alloc2
		self.vol_guid = d.blobnz(16)
		self.sto_guid = self.vol_guid if not sim.two else d.blobnz(16)
		if sim.two and self.sto_guid == self.vol_guid:
			self.sto_guid = bytes(16)
		self.start_fields = dict(maxdiff=d.u(64), app=d.u(64), pre=d.u(64), hot=d.u(64), days=d.u(32), prot=d.u(32))
		self.items2 = []
		self.items3 = []
		self.meta = {}

	selfs = False

	def chain(self, btype, payloads, target=None, alloc=None):
		"""Blocks holding the payloads, linked. Returns the offset of the first one."""
		target = self.store if target is None else target
		alloc = alloc or self.alloc
		if not payloads:
			return 0
		nums = [alloc() for _ in payloads]
		self.meta.setdefault(btype, []).append(nums)
		for i, p in enumerate(payloads):
			nxt = nums[i + 1] * BLK if i + 1 < len(nums) else 0
			assert len(p) <= BLK - 0x80
			target[nums[i]] = (header(btype, i * BLK, nums[i] * BLK, nxt) + p).ljust(BLK, b'\x00')
		return nums[0] * BLK

	def bitmap(self, bits, size, leftover):
		n = bitmap_len(size)
		raw = bytearray(n)
		for b in bits:
			if b // 8 < n:
				raw[b // 8] |= 1 << (b % 8)
		out = []
		for i in range(0, n, BLK - 0x80):
			out.append(bytes(raw[i:i + BLK - 0x80]))
		if leftover and self.d.chance(50):
			out[-1] = out[-1] + b'\xFF' * min(16, BLK - 0x80 - len(out[-1]))  # Left-over bits after the volume end.
		return out

	def build_stores(self):
		sim, d = self.sim, self.d
		# The storage area has to be known before bitmaps are written: lay out the data first.
		plans = []
		for s in sim.snaps:
			tbl = []
			for kind, orig, fwd, ids, mask in s.entries:
				if kind == 'fwd':
					tbl.append(struct.pack('<QQQLL', orig * BLK, fwd * BLK, 0, 1 | d.pick((0, 0x10, 0x40)), 0))
					continue
				n = self.alloc()
				if kind == 'ovl':
					# Sectors outside the mask hold left-over data.
					self.store[n] = list(ids)
					fl = 2 | d.pick((0, 0x20, 0x80))
				elif kind == 'ign':
					self.store[n] = list(ids)
					fl = 4 | d.pick((0, 1, 2))
				else:
					self.store[n] = list(ids)
					fl = d.pick((0, 0, 0, 8, 0x10, 0x40))
					if fwd is None and d.chance(6):
						# An entry forwarding a block to itself is a copy of that block, which replaces an earlier copy.
						if d.bool():
							m = self.alloc()
							self.store[m] = sim.new_ids(SPB)
							tbl.append(struct.pack('<QQQLL', orig * BLK, 0, m * BLK, 0, 0))
						tbl.append(struct.pack('<QQQLL', orig * BLK, orig * BLK, n * BLK, fl | 1, 0))
						self.selfs = True
						continue
				tbl.append(struct.pack('<QQQLL', orig * BLK, (d.u(20) * BLK if kind != 'ign' else d.u(64)), n * BLK, fl, mask if kind in ('ovl', 'ign') else d.u(32) if d.chance(20) else 0))
			# Split the table.
			pages = []
			while tbl:
				k = d.int(1, min(len(tbl), 508)) if d.chance(40) else min(len(tbl), 508)
				pages.append(b''.join(tbl[:k]))
				tbl = tbl[k:]
			if not pages and d.bool():
				pages = [b'']
			plans.append((s, pages))
		for s, pages in plans:
			s.o_diff = self.chain(3, pages)
			loc = [(self.alloc() * BLK, i * BLK, BLK * d.int(1, 9)) for i in range(d.int(0, 4))]
			s.locations = loc
			lp = []
			rest = list(loc)
			while rest:
				k = d.int(1, len(rest))
				lp.append(b''.join(struct.pack('<QQQ', *x) for x in rest[:k]))
				rest = rest[k:]
			s.o_loc = self.chain(5, lp)
			s.app = d.blob(BLK - 0x80) if d.chance(50) else None
			s.o_app = self.chain(4, [s.app]) if s.app is not None else 0
			s.o_bm = s.o_pbm = None
		# Reserve the blocks of bitmaps (their number depends on the size only).
		for s in sim.snaps:
			s.bm_nums = len(range(0, bitmap_len(s.size), BLK - 0x80))
		return

	def finish(self, ncontrol=1, shuffle=False, free_items=0):
		sim, d = self.sim, self.d
		self.build_stores()
		# Control blocks.
		nloc = d.int(1, max(1, ncontrol))
		ctl = [(self.alloc2 if sim.two else self.alloc)() for _ in range(nloc)]
		sctl = [self.alloc() for _ in range(d.int(1, max(1, ncontrol)))] if sim.two else []
		bmnums = [[self.alloc() for _ in range(s.bm_nums)] for s in sim.snaps]
		pbmnums = [[self.alloc() for _ in range(len(range(0, bitmap_len(s.prev_blocks * BLK), BLK - 0x80)))] if s.prev is not None else [] for s in sim.snaps]
		if not sim.two:
			sim.reserved |= set(self.store) | set(ctl) | set(x for l in bmnums + pbmnums for x in l)
		else:
			sim.reserved |= set(ctl)
		for i, s in enumerate(sim.snaps):
			res = set(b for b in sim.reserved)
			s.eff = s.eff | set(b for b in res if b < s.blocks)
			for nums, bits, size in ((bmnums[i], s.cur | res, s.size), (pbmnums[i], (s.prev or set()) | res, (s.prev_blocks * BLK if s.prev is not None else 0))):
				if not nums:
					continue
				p = self.bitmap(bits, size, nums is bmnums[i])
				for j, x in enumerate(p):
					nxt = nums[j + 1] * BLK if j + 1 < len(nums) else 0
					self.store[nums[j]] = (header(6, j * BLK, nums[j] * BLK, nxt) + x).ljust(BLK, b'\x00')
			s.o_bm = bmnums[i][0] * BLK if bmnums[i] else 0
			s.o_pbm = pbmnums[i][0] * BLK if pbmnums[i] else 0
		self.bmnums, self.pbmnums = bmnums, pbmnums
		i2, i3 = [], []
		for s in sim.snaps:
			s.file_ref, s.alloc_size = d.u(64), d.u(64)
			i2.append((s, item2(s.prio, s.size, s.guid, s.pos, s.flags, s.ts, d.u(16))))
			i3.append((s, item3(s.o_diff, s.guid, s.o_app, s.o_loc, s.o_bm, s.file_ref, s.alloc_size, s.o_pbm, d.u(32))))
		free = [(None, struct.pack('<L', 1) + d.blob(0x7C)) for _ in range(free_items)]
		if sim.two:
			self.ctl_first = self.place(i2 + free[::2], ctl, self.local, shuffle)
			self.listing = self.order
			self.sctl_first = self.place(i3 + free[1::2], sctl, self.store, shuffle)
		else:
			self.ctl_first = self.place(i2 + i3 + free, ctl, self.store, shuffle)
			self.listing = self.order
		self.ctl, self.sctl = ctl, sctl
		self.start = self.start_block(self.ctl_first, self.vol_guid, self.sto_guid)
		if sim.two:
			self.sstart = self.start_block(self.sctl_first, self.sto_guid, self.sto_guid)
		return self

	def place(self, items, nums, target, shuffle):
		d = self.d
		perm = d.perm(len(items)) if shuffle else range(len(items))
		items = [items[i] for i in perm]
		cuts = sorted(d.int(0, len(items)) for _ in range(len(nums) - 1)) + [len(items)]
		a = 0
		self.order = []
		for j, n in enumerate(nums):
			part = items[a:cuts[j]]
			a = cuts[j]
			assert len(part) <= 127
			nxt = nums[j + 1] * BLK if j + 1 < len(nums) else 0
			body = b''.join(x for _, x in part)
			if len(part) < 126 and d.chance(50):
				body += bytes(0x80) + (struct.pack('<L', 2) + b'\x55' * 0x7C)  # Ignored: after the end.
			target[n] = (header(2, j * BLK, n * BLK, nxt) + body).ljust(BLK, b'\x00')
			self.order += [s for s, x in part if s is not None and x[0] == 2]
		return nums[0] * BLK if nums else 0

	def start_block(self, first, vg, sg):
		f = self.start_fields
		h = GUID + struct.pack('<LLQQQ', 1, 1, 7680, 7680, 0)
		h += struct.pack('<QQ', first, f['maxdiff']) + vg + sg + struct.pack('<QQQLL', f['app'], f['pre'], f['hot'], f['days'], f['prot'])
		return h.ljust(512, b'\x00')

	# -- file objects

	def id_bytes(self, i, storage=False):
		if i is ZERO:
			return bytes(512)
		if i == START:
			return self.sstart if storage else self.start
		if i == BOOT:
			return (b'\xEB\x52\x90' + self.fs + b'    ').ljust(512, b'\x90')
		return sector_bytes(i)

	def volume_sector(self, n):
		b, s = divmod(n, SPB)
		x = (self.local if self.sim.two else self.store).get(b)
		if x is None:
			x = self.sim.get(b)
		if isinstance(x, bytes):
			return x[s * 512:(s + 1) * 512]
		return self.id_bytes(x[s])

	def storage_sector(self, n):
		b, s = divmod(n, SPB)
		x = self.store.get(b)
		if b == 0:
			return self.id_bytes((BOOT, START)[s == START_SECTOR], True)
		if x is None:
			return sector_bytes(INIT * 3 // 2 + n)
		if isinstance(x, bytes):
			return x[s * 512:(s + 1) * 512]
		return self.id_bytes(x[s])

	def volume(self):
		return SparseFile(self.volume_sector, self.volume_offset, self.volume_offset + self.sim.size + self.trailing)

	def storage(self):
		return SparseFile(self.storage_sector, self.storage_offset, self.storage_offset + (max(self.store) + 1) * BLK + self.trailing)

	def expected_bytes(self, k, pos, n, size, fill=False):
		"""(bytes, mask of defined bytes or None) for snapshot k at [pos, pos+n) clipped at size."""
		end = min(size, pos + n)
		if pos >= end:
			return b'', None
		out = []
		undefined = []
		sec = pos // 512
		last = (end - 1) // 512
		cache = None
		while sec <= last:
			b, s = divmod(sec, SPB)
			if cache is None or cache[0] != b:
				cache = (b,) + self.sim.expected(k, b)
			i, kind = cache[1][s], cache[2][s]
			if kind == 'any' or (fill and kind == 'data' and i is not ZERO and self.sim.get(b)[s] == i and i not in self.sim.snaps[k].overlays.get(b, {}).values()):
				undefined.append(sec)  # With the fill: moved away and back, so read in place.
			if fill and kind == 'null':
				v = b'EMPTY           ' * 32
			elif fill and kind == 'orig':
				v = b'ORIGINAL        ' * 32
			else:
				v = self.id_bytes(i)
			out.append(v)
			sec += 1
		first = pos // 512 * 512
		data = b''.join(out)[pos - first:end - first]
		return data, [(u * 512, u * 512 + 512) for u in undefined]


def item2(prio, size, guid, pos, flags, ts, unk=0):
	return (struct.pack('<LBBHQ', 2, prio, 0, 0, size) + guid.bytes_le + struct.pack('<QQQH', pos, flags, ts, unk)).ljust(0x80, b'\x00')


def item3(diff, guid, app, loc, bm, fref, asize, pbm, unk=0):
	return (struct.pack('<LLQ', 3, 0, diff) + guid.bytes_le + struct.pack('<QQQQQQL', app, loc, bm, fref, asize, pbm, unk)).ljust(0x80, b'\x00')


def gen_history(d, two=False, maxops=24, big=None, maxsnaps=5, span=0):
	"""A random history. Returns (sim, user blocks)."""
	if big is None:
		big = d.chance(25)
	if span:
		nb = span + 400
		user = sorted(set([0, span - 1] + [d.uni(0, span - 1) for _ in range(12)]))
	elif not big:
		n = d.int(2, 12)
		nb = n + 400
		user = list(range(n)) + [nb - 1]
	else:
		nb = d.int(BITS // 2, 3 * BITS)
		user = sorted(set([0, 1, nb - 1] + [d.uni(0, nb - 1) for _ in range(5)] + [x for x in (BITS - 1, BITS, 8, 7, 0x40000, 0x40001) if x < nb and d.bool()]))
	tail = d.int(0, 31) if d.chance(60) else 0
	sim = Sim(nb, tail, two)
	null = d.chance(80)
	pos = d.int(0, 20)
	n = d.int(1, maxops)
	hot = None
	for k in range(n):
		op = d.uni(0, 19) if k or d.bool() else 0
		b = d.pick(user)
		if hot and d.chance(40):
			b = d.pick(hot)
		if op <= 3 and len(sim.snaps) < maxsnaps:
			free = [x for x in user if d.chance(30)]
			fl = (0x400 if (null if d.chance(95) else not null) else 0) | (d.u(8) if d.chance(40) else 0x80)
			sim.snapshot(uuid.UUID(bytes_le=d.blobnz(15) + bytes([pos])), d.int(125911584000000000, 135379296000000000), fl, free, d.bool(), pos, d.u(8))
			sim.log.append('snap%d free=%s' % (pos, sorted(sim.snaps[-1].cur)))
			pos += 1
		elif op <= 10:
			m = d.pick((0xFFFFFFFF, 1, 0x80000000, 0xFFFF0000, 0x0F0F0F0F)) if d.chance(60) else d.u(32)
			sim.write(b, m)
			hot = [b]
			sim.log.append('write %d %x' % (b, m))
		elif op <= 15:
			y = d.pick(user)
			if sim.move(b, y):
				hot = [b, y, y]
				sim.log.append('move %d->%d' % (b, y))
		elif op <= 17 and sim.snaps:
			i = d.uni(0, len(sim.snaps) - 1)
			m = d.u(32) if d.bool() else d.pick((1, 0x80000000, 3, 0xFFFFFFFE))
			if sim.overlay(i, b, m):
				sim.log.append('overlay@%d %d %x' % (sim.snaps[i].pos, b, m))
				hot = [b]
		elif op == 18 and sim.snaps:
			sim.ignored(d.uni(0, len(sim.snaps) - 1), b)
			sim.log.append('ignored %d' % b)
		elif op == 19 and d.chance(30):
			if d.bool():
				sim.drop_oldest()
				sim.log.append('drop')
			else:
				sim.blocks += d.int(1, 20)
				sim.tail = d.int(0, 31)
				user.append(sim.blocks - 1)
				sim.log.append('grow %d' % sim.blocks)
	return sim, user


def gen_image(d, sim, user, **kw):
	"""Lays out a history with generated placement."""
	used = set(user)
	state = {'n': d.int(1, 40), 's': 1}
	spread = d.chance(30)

	def alloc():
		while True:
			state['n'] += 1 if not spread or sim.blocks < 5000 else d.int(1, 2000)
			b = state['n'] % (sim.blocks - 40)  # Inside of the area existing since the beginning.
			if b not in used:
				used.add(b)
				return b
	if sim.two:
		def salloc():
			state['s'] += 1 if not spread else d.int(1, 0x30000)
			return state['s']
		return Image(sim, d, salloc, alloc2=alloc, **kw)
	return Image(sim, d, alloc, **kw)
