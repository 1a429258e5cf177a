"""Known findings: genuine defects of the code under test that are recorded, not repaired.

known_findings.json: {"findings": [{"id", "property", "text"}], "fixed": ["fixed: property=..."]}.
A check asks `known(id)` right where it would raise, with the specific situation
already established; anything else is still a violation.
"""
import os, json

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
_seen = {}
_cache = None


def _load():
	global _cache
	if _cache is None:
		try:
			with open(PATH) as f:
				_cache = json.load(f)
		except FileNotFoundError:
			_cache = {'findings': [], 'fixed': []}
	return _cache


def reset():
	_seen.clear()


def seen():
	return dict(_seen)


def listed(prop):
	return [f['id'] for f in _load()['findings'] if f['property'] == prop]


def text(fid):
	return [f['text'] for f in _load()['findings'] if f['id'] == fid][0]


def known(fid):
	for f in _load()['findings']:
		if f['id'] == fid:
			_seen[fid] = _seen.get(fid, 0) + 1
			return True
	return False
