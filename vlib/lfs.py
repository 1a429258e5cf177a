"""An independent writer of log files: LFS pages, records, tail copies (1.1), fast pages (2.x), restart pages, crashes."""
import struct, binascii

PAGE = 4096


def protect(page, usa_off, usn, n=None):
	"""Apply an update sequence array to a multi-sector page."""
	page = bytearray(page)
	n = len(page) // 512
	struct.pack_into('<HH', page, 4, usa_off, n + 1)
	struct.pack_into('<H', page, usa_off, usn)
	for i in range(n):
		o = i * 512 + 510
		page[usa_off + 2 + 2 * i:usa_off + 4 + 2 * i] = page[o:o + 2]
		struct.pack_into('<H', page, o, usn)
	return bytes(page)


def protect_crc(page, usa_off, filler):
	"""Protect a page with a checksum instead (as on DAX volumes)."""
	page = bytearray(page)
	n = len(page) // 512
	size = 2 * (n + 1)
	struct.pack_into('<HH', page, 4, usa_off, n + 1)
	page[usa_off:usa_off + size] = b'\x00' * size
	crc = binascii.crc32(bytes(page))
	page[usa_off:usa_off + size] = (struct.pack('<L', crc) + b'CRC4' + filler + b'\x00' * size)[:size]
	return bytes(page)


class Rec(object):
	def __init__(self, data, rtype=1, tid=0, client=0, prev=0, undo=0, flags=0):
		self.data = data
		self.rtype = rtype
		self.tid = tid
		self.client = client
		self.prev = prev
		self.undo = undo
		self.flags = flags
		self.lsn = None
		self.pieces = None  # [(page uid, number of client data bytes)]

	def header(self, length):
		h = struct.pack('<QQQLLLLH', self.lsn, self.prev, self.undo, len(self.data), self.client, self.rtype, self.tid, self.flags)
		return h + b'\x00' * (length - len(h))


class PageState(object):
	"""The content of one page of the circular area in one lap; grows while records are added."""

	def __init__(self, uid, number, lap, data_off):
		self.uid = uid
		self.number = number
		self.lap = lap
		self.body = bytearray(PAGE)
		self.used = data_off
		self.last_lsn = 0
		self.last_end_lsn = 0
		self.end_flag = 0
		self.version = 0

	def snap(self):
		s = PageState(self.uid, self.number, self.lap, self.used)
		s.body = bytes(self.body)
		s.last_lsn = self.last_lsn
		s.last_end_lsn = self.last_end_lsn
		s.end_flag = self.end_flag
		s.version = self.version
		return s


class Log(object):
	def __init__(self, version=(1, 1), area=8, bits=None, header=48, data_off=64, lap=1, start=0, dax=False, usa_off=40):
		self.version = version
		self.first = 4 if version == (1, 1) else 34
		self.npages = self.first + area
		self.file_size = self.npages * PAGE
		need = (self.file_size // 8).bit_length()
		self.bits = bits if bits is not None else 64 - need
		assert 64 - self.bits >= need
		self.header = header
		self.data_off = data_off
		self.dax = dax
		self.usa_off = usa_off
		self.lap = lap
		self.pages = []  # All PageStates in the order of use.
		self.recs = []
		self.by_lsn = {}
		self.disk = {}  # Physical page number: (bytes, snapshot, kind)
		self.writes = []  # Pending physical writes: (page number, bytes, snapshot, kind)
		self.usn = 1
		self.tail_slot = 0
		self.fast_slot = 0
		self.fast_map = {}  # uid: latest snapshot in the fast area, not yet moved
		self.clean = {}  # uid: version flushed
		self.cur = None
		self.next_number = self.first + start
		self.next_lap = lap
		self._new_page()

	def lsn(self, number, off, lap):
		return ((number * PAGE + off) >> 3) | (lap << (64 - self.bits))

	def _new_page(self):
		p = PageState(len(self.pages), self.next_number, self.next_lap, self.data_off)
		self.pages.append(p)
		self.cur = p
		self.next_number += 1
		if self.next_number >= self.npages:
			self.next_number = self.first
			self.next_lap += 1
		return p

	def append(self, rec):
		"""Add a record to the log (in memory)."""
		if PAGE - self.cur.used < self.header:
			self._new_page()
		p = self.cur
		rec.lsn = self.lsn(p.number, p.used, p.lap)
		rec.start = (p.uid, p.used)
		h = rec.header(self.header)
		p.body[p.used:p.used + len(h)] = h
		p.used += len(h)
		p.last_lsn = rec.lsn
		rec.pieces = []
		left = rec.data
		pos = 0
		while True:
			n = min(PAGE - p.used, len(left))
			if n or not rec.pieces:
				p.body[p.used:p.used + n] = left[:n]
				rec.pieces.append((p.uid, n))
				p.used += n
				pos += n
				left = left[n:]
			p.version = len(self.recs) + 1
			if not left:
				break
			p = self._new_page()
			p.last_lsn = rec.lsn
		p.last_end_lsn = rec.lsn
		p.end_flag = 1
		self.recs.append(rec)
		self.by_lsn[rec.lsn] = rec
		return rec.lsn

	def page_bytes(self, s, kind):
		"""Serialise a page state. kind: 'area', 'tail', 'fast'."""
		b = bytearray(s.body)
		off = s.number * PAGE
		first = off if kind == 'tail' else s.last_lsn
		struct.pack_into('<4sHHQLHHH', b, 0, b'RCRD', 0, 0, first, s.end_flag, 1, 1, s.used)
		struct.pack_into('<Q', b, 32, s.last_end_lsn)
		if self.version[0] >= 2:
			struct.pack_into('<L', b, 60, off)
		self.usn = self.usn % 0xFFFE + 1
		if self.dax:
			return protect_crc(b, self.usa_off, struct.pack('<H', self.usn))
		return protect(b, self.usa_off, self.usn)

	def _write(self, number, s, kind):
		self.writes.append((number, self.page_bytes(s, kind), s, kind))

	def dirty(self):
		return [p for p in self.pages if p.version and self.clean.get(p.uid) != p.version]

	def flush(self):
		"""Schedule the physical writes which store everything logged so far."""
		for p in self.dirty():
			s = p.snap()
			self.clean[p.uid] = p.version
			if self.version == (1, 1):
				if p is self.cur:
					self._write(2 + self.tail_slot, s, 'tail')
					self.tail_slot ^= 1
				self._write(p.number, s, 'area')
			else:
				if self.fast_slot == 32:
					self.move()
				self._write(2 + self.fast_slot, s, 'fast')
				self.fast_slot += 1
				self.fast_map[p.uid] = s

	def move(self):
		"""Move the fast pages to their places (2.x)."""
		for uid in sorted(self.fast_map):
			s = self.fast_map[uid]
			self._write(s.number, s, 'area')
		self.fast_map = {}
		self.fast_slot = 0

	def apply(self, count=None, tear=None):
		"""Perform pending physical writes: all, or only the first `count`, the last of which is torn at `tear` sectors."""
		ws = self.writes
		if count is not None:
			ws = ws[:count]
		for i, (n, b, s, k) in enumerate(ws):
			if tear is not None and count is not None and i == count - 1:
				old = self.disk.get(n, (b'\xff' * PAGE, None, None))
				t = b[:tear * 512] + old[0][tear * 512:]
				self.disk[n] = (b, s, k) if t == b else old if t == old[0] else (t, None, None)
			else:
				self.disk[n] = (b, s, k)
		self.writes = self.writes[len(ws):]

	def image(self, restart1, restart2):
		out = [restart1, restart2]
		for i in range(2, self.npages):
			out.append(self.disk.get(i, (b'\xff' * PAGE, None, None))[0])
		return b''.join(out)

	def lookalike(self):
		"""Do bytes which are not a record start look like one (they hold the LSN of their own position)?"""
		starts = set((self.pages[r.start[0]].number, r.start[1], r.lsn) for r in self.recs)
		mask = (1 << (64 - self.bits)) - 1
		for n in list(self.disk):
			b, s, k = self.disk[n]
			if s is None:
				continue
			for base in set((s.number * 512, n * 512)):
				for i, v in enumerate(struct.unpack('<512Q', s.body)):
					if v and (v & mask) == base + i and (s.number, i * 8, v) not in starts:
						return True
					if v and (v & mask) == base + i and v >> (64 - self.bits) != s.lap:
						return True
		return False

	# The oracle.

	def effective(self, recover=True):
		"""{page number: newest snapshot that can be read}"""
		eff = {}
		tails = [s.last_end_lsn for b, s, k in self.disk.values() if k == 'tail']
		for n, (b, s, k) in self.disk.items():
			if s is None or k == 'tail' and s.last_end_lsn != max(tails):
				continue
			if k == 'area' or recover:
				old = eff.get(s.number)
				if old is None or (s.uid, s.version) > (old.uid, old.version):
					eff[s.number] = s
		return eff

	def present(self, rec, eff):
		uid, off = rec.start
		s = eff.get(self.pages[uid].number)
		return s is not None and s.uid == uid and off + self.header <= s.used and s.version >= rec.index + 1

	def stored(self, rec, eff):
		"""The bytes of client data which are still readable (a prefix)."""
		n = 0
		for i, (uid, size) in enumerate(rec.pieces):
			s = eff.get(self.pages[uid].number)
			if s is None or s.uid != uid or s.version < rec.index + 1:
				break
			n += size
		return rec.data[:n]

	def expected(self, roots, recover=True):
		"""(required, allowed): LSNs which must be reported and LSNs which may be reported."""
		eff = self.effective(recover)
		for i, r in enumerate(self.recs):
			r.index = i
		here = set(r.lsn for r in self.recs if self.present(r, eff))
		seeds = set(x for x in roots)
		for n, (b, s, k) in self.disk.items():
			if s is not None:
				e = eff[s.number] if k == 'area' else s
				if (e.uid, e.version) == (s.uid, s.version):
					seeds.add(s.last_end_lsn)
				if k != 'tail':
					# A tail copy which takes the place of this page hides this value.
					if k == 'area' and recover:
						e = eff[s.number]
						if (e.uid, e.version) != (s.uid, s.version):
							continue
						if self.version == (1, 1) and any(k2 == 'tail' and s2.number == s.number and (s2.uid, s2.version) >= (s.uid, s.version) for _, s2, k2 in self.disk.values() if s2):
							continue
					seeds.add(s.last_lsn)
		req = set(x for x in seeds if x in here)

		def walk(start, step):
			for x in list(start):
				while True:
					x = step(x)
					if x is None or x not in here or x in req:
						break
					req.add(x)

		def nxt(x):
			i = self.by_lsn[x].index + 1
			return self.recs[i].lsn if i < len(self.recs) else None
		walk(req, nxt)
		walk(req, lambda x: self.by_lsn[x].prev)
		walk(req, lambda x: self.by_lsn[x].undo)
		extra = set()
		for x in req:
			r = self.by_lsn[x]
			st = self.stored(r, eff)
			if r.rtype == 2 and len(st) >= 64:
				extra.update(struct.unpack_from('<QQQQQ', st, 8))
		for x in sorted(extra):
			if x in here:
				req.add(x)
				walk([x], nxt)
				walk([x], lambda y: self.by_lsn[y].prev)
				walk([x], lambda y: self.by_lsn[y].undo)
		return req, here, eff


def restart_page(version=(1, 1), bits=42, file_size=0, header=48, data_off=64, current=0, clients=(), chkdsk=0, sig=b'RSTR', flags=0,
		area_off=48, array_off=64, usa_off=30, usn=1, page_size=PAGE, free=0xFFFF, last_len=0, revision=0, dax=False):
	"""clients: (oldest LSN, restart LSN, sequence number, name)"""
	b = bytearray(PAGE)
	struct.pack_into('<4sHHQLLHHH', b, 0, sig, 0, 0, chkdsk, page_size, page_size, area_off, version[1], version[0])
	ra = struct.pack('<QHHHHLHHqLHHL', current, len(clients), free, 0 if clients else 0xFFFF, flags, bits, array_off + 160 * len(clients), array_off, file_size, last_len, header, data_off, revision)
	b[area_off:area_off + len(ra)] = ra
	o = area_off + array_off
	for i, (oldest, rlsn, seq, name) in enumerate(clients):
		nm = name.encode('utf-16le')
		c = struct.pack('<QQHHHHLL', oldest, rlsn, 0xFFFF, 0xFFFF, seq, 0, 0, len(nm)) + nm
		b[o:o + len(c)] = c
		o += 160
	if dax:
		return protect_crc(b, usa_off, b'')
	return protect(b, usa_off, usn)
