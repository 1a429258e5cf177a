"""Whole FAT volumes: a generated tree with live, deleted, reused and damaged directories, and an independent reference walk over what was written."""
from vlib.engine import check, Discard
from vlib import fat as W
from vlib import fatdir as D

PATHS = 4000


class Tree(object):
	def __init__(self, d, typ, deep=False, damage=True):
		self.d = d
		self.damage = damage
		bps = d.pick((512, 512, 512, 1024, 4096))
		spc = d.pick((1, 1, 2, 4)) if bps == 512 else 1
		count = {12: d.int(60, 4084), 16: d.int(4085, 20000), 32: d.pick((d.int(60, 4000), d.int(65525, 70000)))}[typ]
		self.g = W.Geo(typ, bps, spc, count, rsvd=d.pick((1, 32, 7)), nfats=d.pick((1, 2, 3)), rootent=d.pick((16, 64, 512)) * (bps // 512) if typ != 32 else 0, extra_fat=d.pick((0, 1)))
		self.bootf = dict(rootclus=2)
		self.is32 = typ == 32
		self.v = W.Volume(self.g, self.bootf, d.pick((0, 1, 2048)) * 512)
		self.used = set()
		self.serial = 0
		self.live = []      # (path, size) of live files that must be found
		self.kinds = set()
		self.dirs = 0
		self.cs = self.g.cs
		self.build()

	def take(self, n, near=None, contiguous=False):
		d, last = self.d, self.g.count + 1
		out = []
		for _ in range(n):
			for _try in range(200):
				if contiguous and out:
					c = out[-1] + 1
				elif d.chance(60):
					c = d.int(2, min(last, 60))
				else:
					c = d.int(2, last)
				if 2 <= c <= last and c not in self.used:
					break
				if contiguous and out:
					raise Discard()
			else:
				raise Discard()
			self.used.add(c)
			out.append(c)
		return out

	def meta(self, directory, cl):
		m = D.gen_meta(self.d, self.is32, directory)
		m['nt'] = self.d.pick((0, 0, 8, 0x10, 0x18, 1))
		m['attr'] &= 0x3F
		m['cl'] = cl
		self.serial += 1
		m['size'] = 0 if directory else self.serial
		return m

	def name_entry(self, directory, cl, deleted=False, dele=False):
		"""Bytes of a named entry and the name it should get."""
		d = self.d
		self.serial += 1
		n11 = (b'%c%d' % (65 + self.serial % 20, self.serial)).ljust(8)[:8] + d.pick((b'   ', b'TXT', b'D  '))
		m = self.meta(directory, cl)
		base, ext = n11[:8].rstrip().decode(), n11[8:].rstrip().decode()
		if m['nt'] & 8:
			base = base.lower()
		if m['nt'] & 0x10:
			ext = ext.lower()
		if deleted:
			base = '_' + base[1:]
		name = base + ('.' + ext if ext else '')
		raw = b''
		if d.bool():
			name = d.name(1, d.pick((5, 14, 30)), D.ALPHA) + str(self.serial)
			ps = W.long_pieces(name, W.checksum(n11))
			if deleted and d.chance(80):
				ps = [b'\xE5' + p[1:] for p in ps]
			raw = b''.join(ps)
		e = D.put(n11, m)
		if deleted:
			e = b'\xE5' + e[1:]
		return raw + e, name, m

	def dots(self, cl, parent):
		if self.damage and self.d.chance(4):
			# One of the two was overwritten.
			self.kinds.add('baddots')
			a = D.put(self.d.pick((b'.          ', b'X          ', b'..         ')), self.meta(True, 0))
			return a + D.put(self.d.pick((b'..         ', b'..         ', b'Y.         ', b'X          ')), self.meta(True, 0))
		return D.put(b'.          ', self.meta(True, cl)) + D.put(b'..         ', self.meta(True, parent))

	def build(self):
		d, g = self.d, self.g
		root = None
		if self.is32:
			root = d.pick((2, d.int(2, g.count + 1)))
			self.used.add(root)
			self.bootf['rootclus'] = root
		self.budget = d.pick((2, 6, 14))
		self.all_dirs = []
		raw = self.directory('', root or 0, [] if root is None else [root], 0, True)
		if self.is32:
			n = max(1, W.cdiv(len(raw), self.cs))
			cl = [root] + self.take(n - 1)
			self.v.chain(cl)
			self.v.write(cl, raw)
		else:
			raw = raw[:g.rootent * 32]
			self.v.rootbuf = raw.ljust(g.rootent * 32, b'\x00')
			self.truncated_root = True

	def directory(self, path, me, stack, depth, live):
		"""The entries of a directory."""
		d = self.d
		out = b''
		n = d.int(0, 9)
		for _ in range(n):
			kind = d.pickw([(25, 'file'), (10, 'delfile'), (10, 'mess'), (25, 'dir'), (12, 'deldir'), (6, 'delchained'), (6, 'reusedfile'), (5, 'reuseddir'), (4, 'loop'), (3, 'zero'), (3, 'invalid'), (4, 'brokenchain'), (3, 'null')])
			if kind in ('dir', 'deldir', 'delchained', 'brokenchain', 'reuseddir') and (self.budget <= 0 or depth > 5):
				kind = 'file'
			if not self.damage and kind in ('loop', 'invalid', 'brokenchain'):
				kind = 'file'
			self.kinds.add(kind)
			if kind in ('file', 'delfile'):
				cl = self.take(d.int(0, 2))
				if kind == 'file':
					self.v.chain(cl)
				raw, name, m = self.name_entry(False, cl[0] if cl else 0, kind == 'delfile')
				out += raw
			elif kind == 'mess':
				for e in D.gen_dir(d, self.is32, 2):
					if e.kind != 'null' and not any(e.raw[i + 11] & 0x18 == 0x10 and e.raw[i + 11] & 0x3F != 0x0F and e.raw[i] != 0x2E for i in range(0, len(e.raw), 32)):
						out += e.raw
			elif kind == 'dir':
				self.budget -= 1
				first = self.take(1)
				raw, name, m = self.name_entry(True, first[0])
				sub = self.directory(path + '/' + name, first[0], stack + first, depth + 1, live)
				sub = self.dots(first[0], 0 if depth == 0 else me) + sub
				cl = first + self.take(max(1, W.cdiv(len(sub), self.cs)) - 1)
				if d.chance(10):
					cl += self.take(1)
				nxt = cl[-1] + 1
				if d.chance(25) and len(cl) == 1 and nxt <= self.g.count + 1 and nxt not in self.used:
					# A full live directory; the next cluster is free and holds old entries.
					while len(sub) < self.cs:
						sub += self.name_entry(False, 0, d.bool())[0][-32:]
					self.used.add(nxt)
					self.v.write([nxt], b''.join(self.name_entry(False, 0, d.bool())[0][-32:] for _ in range(d.int(1, 4))))
				self.v.chain(cl)
				self.v.write(cl, sub)
				self.all_dirs.append(first[0])
				out += raw
			elif kind in ('deldir', 'delchained', 'reuseddir'):
				self.budget -= 1
				first = self.take(1)
				raw, name, m = self.name_entry(True, first[0], True)
				sub = self.dots(first[0], 0 if depth == 0 else me) + self.directory(path + '/' + name, first[0], stack + first, depth + 1, False)
				if d.chance(40):
					# Fill the first cluster, so that a second one may follow.
					while len(sub) < self.cs:
						sub += self.name_entry(False, 0, True)[0][-32:]
				need = max(1, W.cdiv(len(sub), self.cs))
				cl = list(first)
				if need > 1:
					c = first[0] + 1
					if c <= self.g.count + 1 and c not in self.used:
						self.used.add(c)
						cl.append(c)
						if d.chance(25):
							self.v.tab[c] = W.EOC[self.g.typ]  # The second cluster belongs to something else now.
				sub = sub[:len(cl) * self.cs]
				self.v.write(cl, sub)
				if len(cl) > 1 and d.chance(6):
					# The next cluster belongs to another directory.
					self.v.clusters[cl[1]] = (d.pick((b'.          ', b'Q          ')).ljust(32, b'\x20') + D.put(b'..         ', self.meta(True, 0)) + self.v.clusters[cl[1]])[:self.cs]
				if kind == 'deldir' and d.chance(4):
					self.v.tab[first[0]] = W.BAD[self.g.typ]
				if kind == 'delchained':
					self.v.chain(cl)
				elif kind == 'reuseddir':
					# The first cluster is now a live directory with other contents; this entry is only the old name.
					new, nname, _ = self.name_entry(True, first[0])
					nsub = self.dots(first[0], 0 if depth == 0 else me) + self.directory(path + '/' + nname, first[0], stack + first, depth + 1, live)
					ncl = first + self.take(max(1, W.cdiv(len(nsub), self.cs)) - 1)
					self.v.chain(ncl)
					self.v.write(ncl, nsub)
					raw = raw + new if d.bool() else new + raw
				out += raw
			elif kind == 'reusedfile':
				first = self.take(1)
				self.v.chain(first)
				self.v.write(first, d.blob(self.cs))
				out += self.name_entry(True, first[0], True)[0]
			elif kind == 'loop':
				if stack:
					out += self.name_entry(True, d.pick(stack), d.chance(20))[0]
			elif kind == 'zero':
				out += self.name_entry(True, d.pick((0, 1)), d.bool())[0]
			elif kind == 'invalid':
				c = self.g.count + d.pick((2, 3, 100))
				out += self.name_entry(True, c if self.is32 else min(c, 65535), d.bool())[0]
			elif kind == 'brokenchain':
				self.budget -= 1
				cl = self.take(d.int(1, 3))
				raw, name, m = self.name_entry(True, cl[0])
				sub = self.dots(cl[0], me) + self.directory(path + '/' + name, cl[0], stack + cl[:1], depth + 1, False)
				end = d.pick((self.g.count + 2, self.g.count + 50, W.BAD[self.g.typ], 0, 1, cl[0], cl[-1], d.int(2, self.g.count + 1)))
				self.v.chain(cl, min(end, W.TOP[self.g.typ]))
				self.v.write(cl, sub[:len(cl) * self.cs])
				out += raw
			elif kind == 'null':
				out += bytes(32) if d.bool() else b'\x00' + D.put(b'XABC       ', self.meta(False, 0))[1:]
		return out

	def reference(self, enc, scan, limit=None):
		"""The walk: (main part, {first cluster: orphan part})."""
		g, tab, last = self.g, self.v.tab, self.g.count + 1
		typ = g.typ
		state = dict(n=0)
		reused, visited = set(), set()

		def inside(c):
			return c <= last and W.cdiv((c + 1) * typ, 8) + (1 if typ == 12 else 0) <= g.fatsz * g.bps + (0 if typ == 12 else 0)

		def entry(c):
			if c > last:
				return None
			if typ == 12 and c + c // 2 + 2 > g.fatsz * g.bps:
				return None
			return tab.get(c, 0)

		def chain(c):
			if c in (0, 1):
				return []
			if c == W.BAD[typ]:
				return None
			out = [c]
			while True:
				v = entry(out[-1])
				if v is None:
					return None
				if v in out or v in (0, 1) or v >= W.EOC[typ]:
					return out
				if v == W.BAD[typ]:
					return out + [None]
				out.append(v)

		def data(c):
			cl = chain(c)
			if cl is None:
				return None
			for x in cl:
				if x is not None and limit is not None and g.cluster_offset(x) + g.cs > limit:
					return None
			return b''.join(bytes(g.cs) if x is None else self.v.clusters.get(x, bytes(g.cs)) for x in cl)

		def rec(buf, path, stack):
			for k, w in D.model([buf[i:i + 32] for i in range(0, len(buf), 32)], enc, self.is32):
				state['n'] += 1
				if state['n'] > PATHS:
					raise Discard()
				if k == 'orphan':
					yield (k, path + '/' + w)
					continue
				c = w['first_cluster']
				sub = w['is_directory'] and w['short_name'] not in ('.', '..')
				if sub and c and c in stack:
					continue
				name = w['short_name'] if w['long_name'] is None else w['long_name']
				yield (k, dict(w, short_name=path + '/' + w['short_name'], long_name=None if w['long_name'] is None else path + '/' + w['long_name']))
				if not sub:
					continue
				e = entry(c)
				if e is None:
					continue
				if w['is_deleted'] and e and not scan:
					reused.add(c)
					continue
				visited.add(c)
				b = data(c)
				if not b:
					continue
				if w['is_deleted'] and not scan and b[33:35] != b'. ':
					continue
				if w['is_deleted'] and len(chain(c)) == 1:
					if entry(c + 1) == 0:
						x = data(c + 1)
						if x is not None and b[-96] and b[-64] and b[-32] and x[0] and x[33:35] != b'. ':
							b += x
				for y in rec(b, path + '/' + name, stack | ({c} if c else set())):
					yield y

		if self.is32:
			c = self.bootf['rootclus']
			b = data(c)
			visited.add(c)
			if b is None:
				return None
			main = list(rec(b, '', {c}))
		else:
			if limit is not None and g.root + g.rootent * 32 > limit:
				return None
			main = list(rec(self.v.rootbuf, '', set()))
		orphans = {}
		for c in reused - visited:
			b = data(c)
			if b is None or len(b) < 512 or b[32:35] != b'.. ' or b[:2] != b'. ':
				continue
			orphans[c] = list(rec(b, '<Orphan directory %d>' % c, set()))
		return main, orphans
