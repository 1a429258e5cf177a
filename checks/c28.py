"""C28: the FAT report tool."""
import datetime
import os
from checks import Test
from vlib.engine import *
from vlib import cli
from vlib import exfat as X
from vlib.fattree import Tree

RULE = ('Generated volumes of all four variants at several offsets are written to a file and given to the tool; its table is read back and compared row by row with rows made from the reference walk over what was written. '
	'Non-trivial: a table of at least five rows that includes a label, partial name, deleted, remnant or orphan row. Distinct by table.')

FHEAD = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C/CH timestamp', 'File size', 'Is encrypted', 'Short name (Python bytes)']
XHEAD = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C timestamp', 'M/A/C TZ (minutes)', 'File size', 'Is encrypted']


def yn(v):
	return '?' if v is None else 'Y' if v else 'N'


def ts(v):
	if v is None:
		return 'N/A'
	if isinstance(v, datetime.datetime):
		return '%04d-%02d-%02d %02d:%02d:%02d.%06d' % (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
	return '%04d-%02d-%02d' % (v.year, v.month, v.day)


def tz(v):
	if v is None:
		return '?'
	return '0' if v == 0 else '%+d' % (v * 15)


def fat_row(w, state):
	if w[0] == 'orphan':
		return ['?', '?', w[1] + ' (Partial Name)'] + ['?'] * 6
	e = w[1]
	name = e['short_name'] if e['long_name'] is None else e['long_name']
	if not e['is_deleted'] and e['attributes'] & 0x18 == 8 and e['attributes'] & 0x3F != 0x0F and not state:
		state.append(1)
		name = e['short_name'] + ' (Volume Label)'
	return [yn(e['is_deleted']), yn(e['is_directory']), name, ts(e['mtime']), ts(e['atime']), ts(e['ctime']), str(e['size']), yn(e['is_encrypted']), str(e['short_name_raw'])]


def ex_row(w):
	if w[0] == 'label':
		return ['N', 'N', w[1] + ' (Volume Label)', '?', '?', '?', '?/?/?', '0', 'N']
	if w[0] == 'orphan':
		return ['?', '?', w[1] + ' (Partial Name)', '?', '?', '?', '?/?/?', '?', '?']
	e = w[1]
	return [yn(e['is_deleted']), yn(e['is_directory']), e['name'], ts(e['mtime']), ts(e['atime']), ts(e['ctime']), '/'.join(tz(e[k]) for k in ('mtz', 'atz', 'ctz')), str(e['size']), yn(e['is_encrypted'])]


def report(s, offset, pre=b''):
	with cli.scratch() as t:
		img, out = os.path.join(t, 'image.raw'), os.path.join(t, 'out.csv')
		s.tofile(img)
		if pre:
			with open(out, 'wb') as f:
				f.write(pre)
		r = cli.run('fat_parser', img, offset, out)
		if r.err is not None:
			return r, None
		return r, cli.rows(out)


def groups(rows, what):
	out = {}
	for x in rows:
		p = x[2]
		check(p.startswith('<Orphan directory '), '%s: extra row %s', what, x)
		out.setdefault(int(p[18:p.index('>')]), []).append(x)
	return out


def note(r, typ, got, special):
	r.label(typ)
	for x in special:
		r.label(x)
	kinds = set()
	for x in got[1:]:
		for k, v in (('label', x[2].endswith('(Volume Label)')), ('partial', x[2].endswith('(Partial Name)')), ('deleted', x[0] == 'Y'), ('unknown state', x[0] == '?'), ('in an orphan directory', x[2].startswith('<'))):
			if v:
				kinds.add(k)
	for k in kinds:
		r.label(k)
	if len(got) > 5 and kinds:
		r.nontrivial(repr(got))
	r.sample('%s: %d rows, e.g. %s' % (typ, len(got) - 1, got[-1]))


def t_fat(d, r):
	t = Tree(d, d.pick((12, 16, 32)))
	if t.v.offset + t.g.cluster_offset(t.g.count + 2) > 300 << 20:
		raise Discard()
	want = t.reference('ascii', False)
	if want is None:
		raise Discard()
	main, orphans = want
	res, got = report(t.v.image(), t.v.offset, d.pick((b'', b'x' * 100000)))
	check(res.err is None, 'FAT%d: the tool failed: %s', t.g.typ, repr(res.err))
	eq(res.code, 0, 'exit status')
	check(got and got[0] == FHEAD, 'FAT%d: heading %s', t.g.typ, got[:1])
	state = []
	n = len(main) + 1
	cli.same_rows(got[1:n], [fat_row(w, state) for w in main], 'FAT%d table' % t.g.typ)
	found = groups(got[n:], 'FAT%d table' % t.g.typ)
	eq(sorted(found), sorted(k for k in orphans if orphans[k]), 'orphan directories')
	# The first label found, in the order of the table, is the label: the order of the orphan directories is free.
	order = []
	for x in got[n:]:
		k = int(x[2][18:x[2].index('>')])
		if k not in order:
			order.append(k)
	for k in order:
		cli.same_rows(found[k], [fat_row(w, state) for w in orphans[k]], 'orphan directory %d' % k)
	note(r, 'FAT%d' % t.g.typ, got, t.kinds & {'deldir', 'reusedfile', 'reuseddir', 'loop', 'brokenchain', 'null'})


def t_exfat(d, r):
	t = X.Tree(d)
	root = []
	try:
		for x in X.model(t.data(t.root), True):
			root.append(x)
	except X.Invalid:
		raise Discard()
	if not any(x[0] == 'bitmap' and x[1] == t.g.active for x in root):
		raise Discard()
	main, failed, orphans = t.reference(False, None)
	if failed:
		raise Discard()
	res, got = report(t.image(), t.offset)
	check(res.err is None, 'exFAT: the tool failed: %s', repr(res.err))
	eq(res.code, 0, 'exit status')
	check(got and got[0] == XHEAD, 'exFAT: heading %s', got[:1])
	n = len(main) + 1
	cli.same_rows(got[1:n], [ex_row(w) for w in main], 'exFAT table')
	found = groups(got[n:], 'exFAT table')
	for h in found:
		check(h in orphans, 'unexpected orphan directory %d', h)
	for c, alts in orphans.items():
		g = found.get(c, [])
		check(g in [[ex_row(w) for w in a] for a in alts], 'orphan directory %d: got %s, expected %s', c, g[:3], [ex_row(w) for w in alts[0]][:3])
	note(r, 'exFAT', got, t.kinds & {'deldir', 'reusedfile', 'reuseddir', 'loop', 'brokenchain', 'oddsize'})


TESTS = [
	Test('fat', t_fat, 7500, 40000),
	Test('exfat', t_exfat, 3600, 20000),
]
