#!/usr/bin/env python3
"""propmut.py - mutants of the code behind each property, run against the tests of that property alone (development aid; no check uses this).

propmut.py COVER.json OUT.jsonl [--props C01,C02] [--part K/N] [--seconds S]
"""
import ast, json, os, re, random, sys, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

D = 'dfir_ntfs/'
MAP = {
	'C01': [(D + 'MFT.py', r'^FileRecordSegment\.(?!attributes|get_slack)'), (D + 'Attributes.py', r'^VerifyAndUnprotect')],
	'C02': [(D + 'MFT.py', r'^FileRecordSegment\.(attributes|get_slack)|^AttributeRecord(Resident|Nonresident)\.(?!value_decoded)')],
	'C03': [(D + 'MFT.py', r'^DecodeMappingPairs')],
	'C04': [(D + 'MFT.py', r'^FragmentedFile')],
	'C05': [(D + 'MFT.py', r'^MasterFileTableParser\.(execute_first_pass|file_records|get_file_record_by_number|get_file_record_segment_by_number|__init__)|^FileRecord\.(?!slack)')],
	'C06': [(D + 'MFT.py', r'^MasterFileTableParser\.(build_full_paths|get_file_record_by_number)')],
	'C07': [(D + 'MFT.py', r'^MasterFileTableParser\.(get_file_record_by_path|get_file_record_by_number|get_file_record_segment_by_number)')],
	'C08': [(D + 'Attributes.py', r'^(?!.*print_information)(ResolveFile|StandardInf|Duplicated|FileName|ObjectID|AttributeList|Volume|IndexHeader|Reparse|EAInf|IndexRoot\.get)'), (D + 'BootSector.py', r'.'), (D + 'MFT.py', r'^(En|De)codeFileRecord')],
	'C09': [(D + 'Attributes.py', r'^Decode(File|GUID)'), (D + 'WSL.py', r'^Decode')],
	'C10': [(D + 'Attributes.py', r'^(?!.*print_information)(Index|VerifyAnd)')],
	'C11': [(D + 'MFT.py', r'^SlackSpace|^FileRecord\.slack|^FileRecordSegment\.get_slack')],
	'C12': [(D + 'MFT.py', r'^FileSystemParser'), (D + 'BootSector.py', r'.')],
	'C13': [(D + 'USN.py', r'.')],
	'C14': [(D + 'LogFile.py', r'^(UnprotectSectors|Restart|ClientRecord|LogRecord|LogFileParser\.(?!parse_ntfs))')],
	'C15': [(D + 'LogFile.py', r'^(LogFileParser\.parse_ntfs|ClientData|NTFS|OpenAttr|AttributeNames|Resolve|TransactionT|DirtyP|Restartt)')],
	'C17': [(D + 'ShadowCopy.py', r'.')],
	'C18': [(D + 'ShadowCopy.py', r'^(?!.*(translate|read$|lookup|diff_area|check_bitmap))')],
	'C19': [(D + 'PartitionTable.py', r'.')],
	'C20': [(D + 'MoveTable.py', r'.')],
	'C21': [(D + 'addons/FAT.py', r'^(BSBPB|FSINFO|FAT\.|FileSystemParser\.(__init__|read_chain)|Get|IsFile)')],
	'C22': [(D + 'addons/FAT.py', r'^(DirectoryEntries|Build|Parse|Validate|Decode|IsVolume)')],
	'C23': [(D + 'addons/FAT.py', r'^(FileSystemParser\.walk|Expand)')],
	'C24': [(D + 'addons/exFAT.py', r'^(BR|FAT\.|Bitmap|FileSystemParser\.(__init__|read_chain))')],
	'C25': [(D + 'addons/exFAT.py', r'^(DirectoryEntries|Build|Decode|Entry|Expand|FileSystemParser\.walk)')],
	'C27': [('ntfs_parser', r'.')],
	'C28': [('fat_parser', r'.')],
	'C29': [('vsc_mount', r'.')],
	'C30': [(D + 'Attributes.py', r'^EA\.data'), (D + 'WSL.py', r'^(?!.*print)')],
	'C31': [(D + 'MFT.py', r'^MetadataCarver')],
	'C32': [(D + 'Attributes.py', r'print_information'), (D + 'WSL.py', r'print'), (D + 'MFT.py', r'Resolve|type_str'), (D + 'addons/FAT.py', r'^ResolveFile'), (D + 'addons/exFAT.py', r'^ResolveFile')],
}


def spans(path):
	out = []

	def walk(body, prefix):
		for n in body:
			if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
				if isinstance(n, ast.FunctionDef):
					out.append((n.lineno, n.end_lineno, prefix + n.name))
				walk(n.body, prefix + n.name + '.')
	walk(ast.parse(open(os.path.join(mutate.REPO, path), encoding='utf-8').read()).body, '')
	return out


def one(a):
	m, prop, tests, seconds = a
	r = mutate.one((m, tests, seconds))
	r['prop'] = prop
	return r


def main():
	cov = json.load(open(sys.argv[1]))
	out = sys.argv[2]
	opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
	props = opt.get('--props', ','.join(MAP)).split(',')
	k, n = map(int, opt.get('--part', '0/1').split('/'))
	seconds = float(opt.get('--seconds', '4'))
	done = set()
	if os.path.exists(out):
		done = set((json.loads(l)['id'], json.loads(l)['prop']) for l in open(out))
	todo, un = [], []
	cache = {}
	for p in props:
		for f, rx in MAP[p]:
			if f not in cache:
				sp = spans(f)
				ms = []
				for m in mutate.mutants(f):
					q = [s for s in sp if s[0] <= m['line'] <= s[1]]
					q = max(q)[2] if q else None
					if q is None or q.split('.')[-1] == '__str__' or m['kind'] == 'stmt' and re.match(r'\w+ = None$', m['old']):
						continue
					ms.append((m, q))
				cache[f] = ms
			for m, q in cache[f]:
				if not re.search(rx, q) or (m['id'], p) in done or random.Random(m['id']).randrange(n) != k:
					continue
				t = cov.get(f, {}).get(str(m['line']), [])
				t = [(x.split(':')[0], int(x.split(':')[1])) for x in t if x.split(':')[0] == p]
				(todo if t else un).append((dict(m, where=q), p, t, seconds))
	random.Random(5).shuffle(todo)
	print(len(todo), 'pairs,', len(un), 'on lines which no test of the property executes', flush=True)
	with open(out, 'a') as fo:
		for m, p, t, s in un:
			fo.write(json.dumps(dict(m, result='uncovered', by=None, prop=p)) + '\n')
		fo.flush()
		with mp.Pool(8) as pool:
			for i, r in enumerate(pool.imap_unordered(one, todo, 1)):
				fo.write(json.dumps(r) + '\n')
				fo.flush()
				if i % 100 == 99:
					print(i + 1, flush=True)


if __name__ == '__main__':
	main()
