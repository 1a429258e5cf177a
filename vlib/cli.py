"""Runs the command-line tools of the repository in this process, on files inside a scratch folder."""
import contextlib
import csv
import io
import os
import shutil
import sys
import tempfile
from vlib.engine import check

REPO = os.environ.get('VERIF_REPO', '/repo')
CODE = {}


class Result(object):
	def __init__(self, out, code, err):
		self.out, self.code, self.err = out, code, err  # Standard output, exit status, exception (or None).


def run(tool, *args, **kw):
	"""Run a tool with its arguments. kw: modules={name: stand-in module}."""
	path = os.path.join(REPO, tool)
	if tool not in CODE:
		with open(path, 'rb') as f:
			CODE[tool] = compile(f.read(), path, 'exec')
	mods = kw.get('modules') or {}
	saved = {k: sys.modules.get(k) for k in mods}
	argv = sys.argv
	out = io.StringIO()
	code, err = 0, None
	ns = {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__}
	try:
		sys.argv = [path] + [str(a) for a in args]
		sys.modules.update(mods)
		with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
			try:
				exec(CODE[tool], ns)
			except SystemExit as e:
				code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
			except Exception as e:
				err = e
	finally:
		sys.argv = argv
		for k, m in saved.items():
			if m is None:
				sys.modules.pop(k, None)
			else:
				sys.modules[k] = m
	# What the tool did not close itself on an early exit.
	for v in list(ns.values()):
		if isinstance(v, io.IOBase) and not v.closed:
			v.close()
	return Result(out.getvalue(), code, err)


@contextlib.contextmanager
def scratch():
	p = tempfile.mkdtemp(prefix='vcli', dir='/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None)
	try:
		yield p
	finally:
		shutil.rmtree(p)


def rows(path):
	"""The rows of a CSV file, read as the documentation says it is written: UTF-8 in the Excel dialect."""
	with open(path, 'rb') as f:
		return parse(f.read())


def parse(data):
	return list(csv.reader(io.StringIO(data.decode('utf-8'), newline=''), dialect='excel'))


def same_rows(got, want, what):
	for i, (a, b) in enumerate(zip(got, want)):
		check(a == b, '%s: row %d: got %s, expected %s', what, i, a, b)
	check(len(got) == len(want), '%s: %d rows, expected %d: %s', what, len(got), len(want), (got[len(want):] or want[len(got):])[:2])
