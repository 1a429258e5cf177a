"""C29: the mount tool."""
import datetime
import errno
import hashlib
import os
import re
import stat
import types
from checks import Test, c17
from vlib.engine import *
from vlib import cli, ntfs, vss
from dfir_ntfs import ShadowCopy

TECHNIQUE = 'model-based property testing: the mount tool runs against a stand-in for the FUSE library that plays generated request sequences; every answer is compared with the simulated snapshot'
RULE = ('A simulated history with snapshots is written to files; the mount tool is started on one of its snapshots with a stand-in FUSE library, which plays a generated sequence of requests (attributes, lookup, listing, '
	'open, read at any offset and size, every kind of change). Non-trivial: at least one read of a block kept for the snapshot. Distinct by history and requests.')
ASSUMPTIONS = ['The FUSE library is replaced by a stand-in with the documented interface of llfuse: requests that the class does not handle give ENOSYS.']

ATTRS = ('st_ino', 'generation', 'entry_timeout', 'attr_timeout', 'st_mode', 'st_nlink', 'st_uid', 'st_gid', 'st_rdev', 'st_size', 'st_blksize', 'st_blocks', 'st_atime_ns', 'st_ctime_ns', 'st_mtime_ns', 'st_birthtime_ns')
STATFS = ('f_bsize', 'f_frsize', 'f_blocks', 'f_bfree', 'f_bavail', 'f_files', 'f_ffree', 'f_favail', 'f_namemax')
HANDLERS = ('access', 'create', 'flush', 'forget', 'fsync', 'fsyncdir', 'getattr', 'getxattr', 'link', 'listxattr', 'lookup', 'mkdir', 'mknod', 'open', 'opendir', 'read', 'readdir', 'readlink', 'release', 'releasedir',
	'removexattr', 'rename', 'rmdir', 'setattr', 'setxattr', 'statfs', 'symlink', 'unlink', 'write')


class FUSEError(Exception):
	def __init__(self, errno_):
		self.errno = errno_


def library(play):
	m = types.ModuleType('llfuse')
	m.ROOT_INODE = 1
	m.FUSEError = FUSEError
	m.default_options = frozenset(('big_writes', 'default_permissions'))

	class Operations(object):
		def init(self):
			pass

		def destroy(self):
			pass

	def missing(self, *a, **k):
		raise FUSEError(errno.ENOSYS)
	for h in HANDLERS:
		setattr(Operations, h, missing)
	m.Operations = Operations
	m.EntryAttributes = type('EntryAttributes', (object,), {'__slots__': ATTRS})
	m.StatvfsData = type('StatvfsData', (object,), {'__slots__': STATFS})
	m.state = dict(fs=None, mounted=None, played=False, closed=0)

	def init(fs, mnt, options=None):
		m.state['fs'], m.state['mounted'] = fs, mnt
		fs.init()

	def main(*a, **k):
		m.state['played'] = True
		play(m.state['fs'])

	def close(*a, **k):
		if m.state['fs'] is not None and not m.state['closed']:
			m.state['fs'].destroy()
		m.state['closed'] += 1
	m.init, m.main, m.close = init, main, close
	return m


def digest(p):
	h = hashlib.sha1()
	with open(p, 'rb') as f:
		while True:
			b = f.read(1 << 20)
			if not b:
				break
			h.update(b)
	s = os.stat(p)
	return h.hexdigest(), s.st_size, s.st_mtime_ns, s.st_mode


def write_volume(img, path):
	with open(path, 'wb') as f:
		f.write(img.volume().read())


def write_storage(img, path):
	src = img.storage()
	with open(path, 'wb') as f:
		f.truncate(src.size)
		for b in [0] + sorted(img.store):
			src.seek(img.storage_offset + b * vss.BLK)
			f.seek(img.storage_offset + b * vss.BLK)
			f.write(src.read(vss.BLK))


def refused(fn, args, what, codes=(errno.EROFS,)):
	try:
		v = fn(*args)
		if isinstance(v, types.GeneratorType):
			v = list(v)
	except FUSEError as e:
		check(codes is None or e.errno in codes, '%s: refused with %s instead of read-only', what, errno.errorcode.get(e.errno, e.errno))
		return
	check(False, '%s was accepted (result %s)', what, repr(v)[:100])


def changes(d, fs, fh, ctx):
	"""One attempt to change something."""
	ino = d.pick((1, 2, 2, d.int(3, 9)))
	name = d.pick((b'image.raw', b'x', b'..', d.blobnz(3)))
	other = d.pick((b'image.raw', b'y', b'new.raw'))
	ops = [('create', (1, name, 0o644, d.pick((os.O_RDWR, os.O_WRONLY | os.O_CREAT, os.O_RDONLY | os.O_CREAT)), ctx)), ('link', (ino, 1, other, ctx)), ('mkdir', (1, name, 0o755, ctx)),
		('mknod', (1, name, stat.S_IFREG | 0o600, 0, ctx)), ('rename', (1, name, 1, other, ctx)), ('rmdir', (1, name, ctx)), ('setattr', (ino, object(), object(), fh, ctx)), ('symlink', (1, name, b'target', ctx)),
		('unlink', (1, name, ctx)), ('write', (d.pick((fh, fh, 0, 7)), d.int(0, 100000), d.blob(d.int(0, 20)))), ('open', (2, d.pick((os.O_WRONLY, os.O_RDWR, os.O_RDWR | os.O_CREAT, os.O_WRONLY | os.O_TRUNC, os.O_WRONLY | os.O_APPEND, os.O_APPEND, os.O_RDWR | os.O_EXCL)), ctx))]
	op, args = d.pick(ops)
	refused(getattr(fs, op), args, op)
	x, args = d.pick((('setxattr', (ino, b'user.a', b'1', ctx)), ('removexattr', (ino, b'user.a', ctx))))
	refused(getattr(fs, x), args, x, None)
	return op


def session(d, fs, img, k, fill, stat_):
	sim = img.sim
	s = sim.snaps[k]
	ctx = object()
	root = fs.getattr(1, ctx)
	check(stat.S_ISDIR(root.st_mode) and root.st_ino == 1, 'the root is not a directory')
	fh = fs.open(2, os.O_RDONLY, ctx)
	blocks = c17.interesting(sim, img.user, s)

	def attr(a, what):
		eq((a.st_ino, a.st_size, stat.S_ISREG(a.st_mode)), (2, s.size, True), what)
		check(0 <= a.st_blocks * 512 - a.st_size < 512, '%s: block count', what)
		eq((a.st_uid, a.st_gid), (os.getuid(), os.getgid()), what + ': owner')
	for _ in range(d.int(3, 14)):
		op = d.pickw([(60, 'read'), (5, 'attr'), (5, 'lookup'), (6, 'list'), (6, 'bad'), (18, 'change')])
		if op == 'read':
			b = d.pick(blocks) if blocks and d.chance(70) else d.int(0, s.blocks)
			off = max(0, b * vss.BLK + d.pick((0, 0, 1, -1, 512, 8192, -512, d.int(0, vss.BLK - 1))))
			n = d.pick((1, 512, 4096, 131072, vss.BLK, vss.BLK + 1, d.int(0, 70000), 1 << 20 if d.chance(5) else 1024))
			if d.chance(8):
				off = max(0, s.size - d.int(0, 600))
			elif d.chance(3):
				off = s.size + d.int(0, 1 << 40)
			got = fs.read(fh, off, n)
			want, und = img.expected_bytes(k, off, n, s.size, fill)
			c17.same(got, want, und, off, 'read of %d bytes at %d of snapshot %d' % (n, off, s.pos))
			stat_['reads'] += 1
			if any(off <= x * vss.BLK < off + n or x * vss.BLK <= off < (x + 1) * vss.BLK for x in blocks):
				stat_['kept'] += 1
		elif op == 'attr':
			attr(fs.getattr(2, ctx), 'attributes of the image')
		elif op == 'lookup':
			attr(fs.lookup(1, b'image.raw', ctx), 'lookup of the image')
			refused(fs.lookup, (1, d.pick((b'image', b'IMAGE.RAW', b'image.raw ', b'x')), ctx), 'lookup of another name', None)
			refused(fs.lookup, (2, b'image.raw', ctx), 'lookup below the image', None)
		elif op == 'list':
			dh = fs.opendir(1, ctx)
			off, seen = 0, []
			while True:
				got = list(fs.readdir(dh, off))
				if not got:
					break
				for name, a, nxt in got:
					seen.append(name)
					attr(a, 'listed attributes')
					check(nxt > off, 'listing offset')
					off = nxt
				check(len(seen) < 5, 'the listing does not end')
			eq(seen, [b'image.raw'], 'listing')
			fs.releasedir(dh)
		elif op == 'bad':
			what, fn, args = d.pick((('read of another handle', fs.read, (fh + d.int(1, 9), 0, 512)), ('listing of the image', fs.readdir, (fh, 0)), ('attributes of an unknown inode', fs.getattr, (d.int(3, 1000), ctx)),
				('opening an unknown inode', fs.open, (d.int(3, 1000), os.O_RDONLY, ctx)), ('opening the image as a directory', fs.opendir, (2, ctx))))
			refused(fn, args, what, None)
		else:
			stat_['changes'].add(changes(d, fs, fh, ctx))
	if d.bool():
		check(fs.statfs(ctx) is not None, 'no file system statistics')
		check(fs.access(2, os.R_OK, ctx), 'reading the image is not permitted')
	fs.release(fh)


def t_mount(d, r):
	two = d.chance(30)
	sim, user, img = c17.make(d, two, big=False)
	img.user = user
	k = d.int(0, len(sim.snaps) - 1)
	s = sim.snaps[k]
	if len([x for x in sim.snaps if x.pos == s.pos]) > 1:
		raise Discard()
	mode = '--mount-two' if two else d.pick(('--mount', '--mount', '--mount-altfill'))
	st = dict(reads=0, kept=0, changes=set())
	with cli.scratch() as t:
		vol, sto, mnt = os.path.join(t, 'vol.raw'), os.path.join(t, 'sto.raw'), os.path.join(t, 'mnt')
		os.mkdir(mnt)
		write_volume(img, vol)
		paths = [vol]
		if two:
			write_storage(img, sto)
			paths.append(sto)
		before = [os.stat(p)[:7] + (os.stat(p).st_mtime_ns,) for p in paths] + [digest(vol)]
		problem = []

		def play(fs):
			try:
				session(d, fs, img, k, mode == '--mount-altfill', st)
			except Violation as e:
				problem.append(e)
		lib = library(play)
		args = [mode, vol, sto, img.volume_offset, img.storage_offset, s.pos, mnt] if two else [mode, vol, img.volume_offset, s.pos, mnt]
		res = cli.run('vsc_mount', *args, modules={'llfuse': lib})
		if problem:
			raise problem[0]
		check(res.err is None, 'the mounted file system failed: %s', repr(res.err))
		check(lib.state['played'], 'nothing was mounted')
		eq((lib.state['mounted'], res.code), (mnt, 0), 'mount point and exit status')
		after = [os.stat(p)[:7] + (os.stat(p).st_mtime_ns,) for p in paths] + [digest(vol)]
		eq(after, before, 'image files after the session')
		eq(sorted(os.listdir(t)), sorted(['mnt'] + [os.path.basename(p) for p in paths]), 'files in the folder')
		eq(os.listdir(mnt), [], 'mount point')
		# Refused starts mount nothing.
		if d.chance(30):
			bad = list(args)
			how = d.pick(('position', 'image', 'mountpoint', 'count', 'number', 'mode'))
			if how == 'position':
				bad[-2] = max(x.pos for x in sim.snaps) + d.int(1, 3)
			elif how == 'image':
				bad[1] = os.path.join(t, 'none')
			elif how == 'mountpoint':
				bad[-1] = d.pick((os.path.join(t, 'none'), vol))
			elif how == 'count':
				bad = bad[:-1] if d.bool() else bad + ['x']
			elif how == 'number':
				bad[-2] = 'one'
			else:
				bad[0] = '--unmount'
			lib = library(play)
			res = cli.run('vsc_mount', *bad, modules={'llfuse': lib})
			check(not lib.state['played'] and lib.state['mounted'] is None, 'something was mounted with a wrong %s', how)
			if how in ('image', 'mountpoint'):
				check(res.err is None and res.code not in (0, None), 'no exit status for a wrong %s', how)
			elif how == 'position':
				check(isinstance(res.err, ShadowCopy.ShadowCopyNotFoundException) or res.code, 'no error for a wrong position')
			else:
				check(res.err is None and 'Usage' in res.out, 'no usage for a wrong %s', how)
			eq([os.stat(p)[:7] + (os.stat(p).st_mtime_ns,) for p in paths] + [digest(vol)], before, 'image files after the refused start')
	r.label(mode)
	for c in st['changes']:
		r.label('refused ' + c)
	if st['kept']:
		r.nontrivial(tuple(sim.log), st['reads'], k, mode)
	r.sample('%s position %d: %d reads; %s' % (mode, s.pos, st['reads'], '; '.join(sim.log)[:160]))


LINE = re.compile(r'^\s*Stack position: (-?\d+), timestamp \(UTC\): (.*)$')


def t_list(d, r):
	kind = d.pickw([(60, 'history'), (8, 'none'), (10, 'plain'), (12, 'notvolume'), (10, 'damaged')])
	snaps = []
	with cli.scratch() as t:
		vol = os.path.join(t, 'vol.raw')
		off = d.pick((0, 512, 1 << 20))
		if kind == 'history':
			two = d.chance(30)
			sim, user, img = c17.make(d, two, big=False)
			off = img.volume_offset
			snaps = sim.snaps
			write_volume(img, vol)
		else:
			sim = vss.Sim(60, 0, False)
			img = vss.gen_image(d, sim, [0], volume_offset=off, fs=d.pick((b'NTFS', b'ReFS')))
			img.finish()
			raw = bytearray(img.volume().read())
			if kind == 'plain':
				raw[off + 7680:off + 8192] = d.pick((bytes(512), d.blob(512)))
			elif kind == 'notvolume':
				raw[off:off + 16] = d.pick((bytes(16), b'\xEB\x3C\x90MSDOS5.0' + bytes(5), d.blob(3) + b'NTFX    ' + bytes(5)))
			elif kind == 'damaged':
				how = d.int(0, 4)
				if how == 4:
					raw = raw[:off + d.pick((8191, 7680, 4096))]
				else:
					o = off + 7680 + d.pick((d.int(0, 15), d.int(20, 23), d.int(24, 31), d.int(32, 39), d.int(40, 47)))
					raw[o] ^= 1 << d.int(0, 7)
			with open(vol, 'wb') as f:
				f.write(raw)
		before = digest(vol)
		lib = library(None)
		res = cli.run('vsc_mount', '--list', vol, off, modules={'llfuse': lib})
		eq(digest(vol), before, 'image after the listing')
		check(not lib.state['played'], 'the listing mounted something')
		check(res.err is None, '%s: the listing failed: %s', kind, repr(res.err))
		lines = [x for x in res.out.split('\n') if x]
		got = []
		for x in lines[1:]:
			m = LINE.match(x)
			check(m, 'line %s', x)
			got.append((int(m.group(1)), m.group(2)))
		eq(len(got), len(snaps), '%s: number of snapshots listed' % kind)
		left = list(snaps)
		for pos, ts in got:
			hit = [s for s in left if s.pos == pos and (ntfs.time_ok(datetime.datetime.fromisoformat(ts), s.ts))]
			check(hit, 'listed snapshot %d, %s is not there: %s', pos, ts, [(s.pos, s.ts) for s in left])
			left.remove(hit[0])
		want = {'history': 'enabled', 'none': 'enabled', 'plain': 'disabled', 'notvolume': 'not a valid', 'damaged': 'disabled'}[kind]
		if kind in ('plain', 'damaged', 'notvolume') or not snaps:
			check(want in lines[0].lower(), '%s: the listing says %s', kind, lines[:1])
		else:
			check('enabled' in lines[0].lower(), 'the listing says %s', lines[:1])
		if d.chance(10):
			res = cli.run('vsc_mount', '--list', os.path.join(t, 'none'), 0, modules={'llfuse': lib})
			check(res.err is None and res.code not in (0, None), 'no error for a missing image')
	r.label(kind)
	if len(snaps) > 1 or kind != 'history':
		r.nontrivial(kind, [(s.pos, s.ts) for s in snaps], before)
	r.sample('%s: %s' % (kind, lines[:3]))


TESTS = [
	Test('mount', t_mount, 1350, 15000),
	Test('list', t_list, 900, 6000),
]
