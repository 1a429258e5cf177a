"""A read-only sparse file object with patches."""


class Sparse(object):
	"""Reads give zero bytes where nothing was put. The parser has no way to write to it (put and flip are for the harness)."""

	def __init__(self, size):
		self.size = size
		self.parts = []
		self.pos = 0

	def put(self, off, data):
		self.parts.append([off, bytes(data)])

	def flip(self, off, mask):
		self.pos = off
		b = self.read(1)
		self.put(off, bytes([b[0] ^ mask]))
		self.pos = 0

	def seek(self, off, whence=0):
		if whence == 1:
			off += self.pos
		elif whence == 2:
			off += self.size
		if off < 0:
			raise ValueError('negative seek')
		if off >= 1 << 63:
			raise OverflowError('offset too large')
		self.pos = off
		return off

	def tell(self):
		return self.pos

	def read(self, n=None):
		if n is None or n < 0:
			n = max(0, self.size - self.pos)
		n = max(0, min(n, self.size - self.pos))
		buf = bytearray(n)
		a, b = self.pos, self.pos + n
		for off, data in self.parts:
			lo, hi = max(a, off), min(b, off + len(data))
			if lo < hi:
				buf[lo - a:hi - a] = data[lo - off:hi - off]
		self.pos += n
		return bytes(buf)

	def close(self):
		pass

	def tofile(self, path):
		"""Write the contents out, leaving holes (for tools that take a path)."""
		with open(path, 'wb') as f:
			f.truncate(self.size)
			for off, data in self.parts:
				f.seek(off)
				f.write(data[:max(0, self.size - off)])


class Numbered(object):
	"""A huge read-only volume: every 512-byte sector consists of its own number, as 8 bytes, over and over."""

	def __init__(self, size, base=0):
		self.size = size
		self.base = base
		self.pos = 0

	def seek(self, off, whence=0):
		if whence:
			raise ValueError('whence')
		if off < 0:
			raise ValueError('negative seek')
		if not isinstance(off, int):
			raise TypeError('offset')
		self.pos = off
		return off

	def tell(self):
		return self.pos

	def read(self, n=None):
		if n is None or n < 0:
			n = max(0, self.size - self.pos)
		n = max(0, min(n, self.size - self.pos))
		out = numbered(self.pos - self.base, n)
		self.pos += n
		return out

	def close(self):
		pass


def numbered(pos, n):
	"""The n bytes at the position of a Numbered volume."""
	if n <= 0:
		return b''
	first, last = pos // 512, (pos + n - 1) // 512
	buf = b''.join((k & 0xFFFFFFFFFFFFFFFF).to_bytes(8, 'little') * 64 for k in range(first, last + 1))
	return buf[pos - first * 512:pos - first * 512 + n]
