"""Inputs of every kind for the checks which concern all parsers at once (C16, C26), and dumps of everything a parser says about an input."""
import binascii
import datetime
import hashlib
import inspect
import struct
import uuid
import warnings

from vlib.engine import Discard, Violation
from vlib import exfat, fattree, lfs, ntfs, report, usn, vss
from vlib.mftsim import A, Sim
from vlib.mftvol import TableVolume
from vlib.sparse import Sparse
from dfir_ntfs import Attributes, BootSector, LogFile, MFT, MoveTable, PartitionTable, ShadowCopy, USN, WSL
from dfir_ntfs.addons import FAT, exFAT

# Accessors without arguments (a fixed list: those of the first version of this check).
NAMES = frozenset('''
	are_hard_errors_detected calculate_checksum calculate_mft_target_number calculate_mft_target_reference_and_name calculate_offset_in_target calculate_sizeof get_allocated_length
	get_allocated_or_next_free get_allocation_size get_application_flags get_application_information get_application_information_block_offset get_atime get_attribute
	get_attribute_length get_attribute_names_length get_attribute_names_lsn get_attribute_offset get_attribute_type_code get_base_file_record_segment get_birth_droid get_bitmap
	get_bitmap_offset get_blocks_per_index_buffer get_bpb_bkbootsec get_bpb_bytspersec get_bpb_extflags get_bpb_fatsz16 get_bpb_fatsz32 get_bpb_fsinfo get_bpb_fsver get_bpb_hiddsec
	get_bpb_media get_bpb_numfats get_bpb_numheads get_bpb_reserved get_bpb_rootclus get_bpb_rootentcnt get_bpb_rsvdseccnt get_bpb_secperclus get_bpb_secpertrk get_bpb_totsec16
	get_bpb_totsec32 get_bs_bootcode get_bs_bootsig get_bs_dirty_flags get_bs_drvnum get_bs_extfields get_bs_fsname get_bs_jmpboot get_bs_oemname get_bs_signature get_bs_totsec64
	get_bytes_available get_bytes_per_cluster get_bytes_per_index_buffer get_bytes_per_sector get_bytespersector get_checksum get_chkdsk_lsn get_chtime get_class_id
	get_client_array_offset get_client_data_length get_client_free_list get_client_id get_client_in_use_list get_client_name get_client_name_length get_client_previous_lsn
	get_client_restart_lsn get_client_undo_next_lsn get_cluster_block_offset get_clustercount get_clusterheapoffset get_collation_rule get_ctime get_current_lsn get_data_runs
	get_data_size get_diff_area get_diff_area_block_offset get_diff_area_guid get_diff_area_guid_raw get_dirty_page_table_length get_dirty_page_table_lsn get_driveselect get_droid
	get_etime get_expansion_data get_extended_header get_extent_size get_extra_data get_extra_flags get_fatlength get_fatoffset get_file_attributes get_file_name get_file_name_length
	get_file_name_offset get_file_offset_11 get_file_offset_2x get_file_record_segment_size get_file_reference get_file_reference_number get_file_size get_filesystemrevision
	get_first_attribute_offset get_first_control_block_offset get_first_free_byte get_first_free_byte_offset get_first_index_entry get_first_mft_cluster get_first_mftmirr_cluster
	get_firstclusterofrootdirectory get_flags get_footer get_free_space_precopy_percentage get_fsi_free_count get_fsi_nxt_free get_fsi_reserved1 get_fsi_reserved2 get_fsi_signatures
	get_gid get_guid_timestamps get_header get_hot_blocks_days get_hot_blocks_precopy_percentage get_index get_index_header get_index_record_size get_indexed_attribute_type_code
	get_item_type get_known_folder_information get_last_compacted_size get_last_end_lsn get_last_lsn get_last_lsn_data_length get_lcns_for_page get_lcns_to_follow get_length
	get_location_description_block_offset get_location_description_items get_log_clients get_log_entry_index get_log_entry_type get_log_page_data_offset get_log_page_size
	get_logfile_sequence_number get_lowest_log_entry_index_present get_lsn_of_open_record get_machine_id get_machine_id_raw get_major_version get_master_file_table_number
	get_max_diff_area_size get_maximum_versions get_media_type get_minor_version get_mode get_mtime get_mustbezero get_name get_name_length get_need_ea_count
	get_next_attribute_instance get_next_client get_next_control_block_volume_offset get_next_log_entry_index get_next_record_offset get_next_volume_offset get_number_of_extents
	get_numberoffats get_object_id get_oem_flash_parameters get_oem_guid get_offset_1 get_offset_2 get_offset_3 get_oldest_lsn get_open_attribute_table_length
	get_open_attribute_table_lsn get_owner_id get_packed_ea_size get_page_count get_page_position get_parent_directory get_parent_file_reference_number get_partitionoffset
	get_percentinuse get_prev_client get_previous_bitmap_offset get_previous_log_entry_index get_protection_flags get_quota_charged get_rdev get_reason get_record_header_length
	get_record_length get_record_offset get_record_type get_redo_data get_redo_length get_redo_offset get_redo_operation get_reference_count get_relative_offset get_remaining_extents
	get_reparse_buffer get_reparse_data_length get_reparse_guid get_reparse_tag get_reserved get_restart_area get_restart_area_length get_restart_offset get_revision_number
	get_sectors_per_cluster get_sectorspercluster get_security_id get_sequence_number get_sequence_number_bits get_serial_number get_signature get_slack get_snapshot_priority
	get_source_info get_stack_position get_start_of_checkpoint_lsn get_storage_guid get_storage_guid_raw get_storage_reserve_id get_store_guid get_store_guid_raw get_system_page_size
	get_table_index get_target_attribute get_target_block_size get_target_vcn get_this_block get_this_lsn get_timestamp get_total_number_of_sectors get_transaction_id
	get_transaction_table_length get_transaction_table_lsn get_trust_level get_type get_uid get_undo_data get_undo_length get_undo_offset get_undo_operation get_unknown_120
	get_unknown_16 get_unknown_24 get_unknown_56 get_unknown_80 get_unpacked_ea_size get_unpacked_ea_size_difference get_unused get_usn get_usn_base get_usn_journal_reference
	get_usn_journal_restart_offset get_vcn get_version get_version_number get_volume_guid get_volume_guid_raw get_volume_offset get_volume_size get_volumeflags get_volumelength
	get_volumeserialnumber get_wrapped_log_record_page_number is_bad is_base_file_record_segment is_boot_code_present is_case_sensitive is_in_use is_log_flushed
	is_reparse_tag_microsoft is_storage_local is_supported_volume is_volume_dirty
	'''.split())


warnings.simplefilter('ignore')


class Limit(Exception):
	"""Too much work for an input of this size."""


class Impossible(OverflowError):
	"""What a file says about an offset it cannot have (as files of the operating system do)."""


class Bytes(object):
	def __init__(self, data):
		self.data, self.size = data, len(data)

	def pread(self, off, n):
		return self.data[off:off + n]


class Other(object):
	"""Any generated file object (Sparse, SparseFile)."""

	def __init__(self, f):
		self.f, self.size = f, f.size

	def pread(self, off, n):
		self.f.seek(off)
		return self.f.read(n)


class Guard(object):
	"""A file object given to a parser: records attempts to change it, counts the work, and may hold damage (patches, a cut)."""

	def __init__(self, base, patches=(), size=None, limit=None):
		self.base = base
		self.patches = list(patches)
		self.size = base.size if size is None else size
		self.pos = 0
		self.changes = []
		self.reads = 0
		self.total = 0
		self.limit = limit

	def seek(self, off, whence=0):
		if whence == 1:
			off += self.pos
		elif whence == 2:
			off += self.size
		elif whence != 0:
			raise ValueError('whence')
		if off < 0:
			raise ValueError('negative seek')
		if off >= 1 << 63:
			raise Impossible('offset too large')
		self.pos = off
		return off

	def tell(self):
		return self.pos

	def read(self, n=None):
		left = max(0, self.size - self.pos)
		if n is None or n < 0:
			n = left
		n = min(n, left)
		self.reads += 1
		self.total += n
		if self.limit is not None and (self.reads > self.limit[0] or self.total > self.limit[1]):
			raise Limit('%d reads, %d bytes for an input of %d bytes' % (self.reads, self.total, self.size))
		data = self.base.pread(self.pos, n)
		data = data.ljust(n, b'\x00')
		if self.patches:
			a, b = self.pos, self.pos + n
			buf = None
			for off, p in self.patches:
				lo, hi = max(a, off), min(b, off + len(p))
				if lo < hi:
					if buf is None:
						buf = bytearray(data)
					buf[lo - a:hi - a] = p[lo - off:hi - off]
			if buf is not None:
				data = bytes(buf)
		self.pos += n
		return data

	def readable(self):
		return True

	def seekable(self):
		return True

	def writable(self):
		return True  # As a file opened for changes would say; nobody should ask for more.

	def write(self, data):
		self.changes.append('write of %d bytes at %d' % (len(data), self.pos))
		self.pos += len(data)
		return len(data)

	def writelines(self, data):
		self.changes.append('writelines')

	def truncate(self, size=None):
		self.changes.append('truncate')
		return self.size

	def flush(self):
		pass

	def close(self):
		self.changes.append('close')


def errname(e):
	"""The guarded source's own error counts as the one an ordinary file object raises."""
	return 'OverflowError' if isinstance(e, Impossible) else type(e).__name__


def call(fn, *a, **k):
	"""The canonical form of a result, or of the error."""
	try:
		v = fn(*a, **k)
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		JUDGE[0](e, getattr(fn, '__self__', None))
		return ('error', errname(e))
	return canon(v)


def failed(e, owner=None):
	"""The canonical form of an error which ended an iteration."""
	JUDGE[0](e, owner)
	return ('error', errname(e))


JUDGE = [lambda e, owner: None]  # Decides about errors (set by C26). The owner is the object whose accessor failed.


def canon(v, depth=0):
	if v is None or isinstance(v, (bool, int, float, str)):
		return v
	if isinstance(v, (bytes, bytearray, memoryview)):
		v = bytes(v)
		return v if len(v) <= 64 else (len(v), hashlib.blake2b(v, digest_size=12).digest())
	if isinstance(v, (datetime.date, datetime.time, datetime.timedelta, datetime.tzinfo, uuid.UUID)):
		return repr(v)
	if isinstance(v, (tuple, list)):
		return tuple(canon(x, depth + 1) for x in v)
	if isinstance(v, dict):
		return tuple(sorted((repr(canon(a)), canon(b, depth + 1)) for a, b in v.items()))
	if depth > 6:
		return type(v).__name__
	return accessors(v, depth)


ACCESSORS = {}  # Names by class.


def accessors(v, depth=0):
	c = type(v)
	if c not in ACCESSORS:
		ACCESSORS[c] = []
		for n in sorted(NAMES):
			f = getattr(c, n, None)
			if inspect.isfunction(f) and all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in list(inspect.signature(f).parameters.values())[1:]):
				ACCESSORS[c].append(n)
	return (c.__name__,) + tuple((n, call(getattr(v, n))) for n in ACCESSORS[c])


def steps(tag, make):
	"""Items of an iterator as canonical forms; a failure is the last item."""
	try:
		for x in make():
			yield (tag, canon(x))
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		yield (tag, 'stopped', failed(e, getattr(make, '__self__', None)))


class Source(object):
	"""files: bases; open(*guards) -> parser; items(parser) -> generator of canonical forms; concurrent: two iterators over one parser may be mixed."""

	def __init__(self, kind, files, open_, items, concurrent=False, hot=(), note=''):
		self.kind, self.files, self.open, self.items, self.concurrent, self.hot, self.note = kind, files, open_, items, concurrent, list(hot), note


# --- file tables -------------------------------------------------------------------

def attr_items(tag, a, vol=None):
	v = None
	try:
		if isinstance(a, MFT.AttributeRecordNonresident):
			yield (tag, 'nonresident', a.type_code, a.name, a.lowest_vcn, a.highest_vcn, getattr(a, 'file_size', None), canon(a.data_runs))
			if vol is not None:
				v = a.value_decoded(*vol)
		else:
			v = a.value_decoded()
			yield (tag, a.type_code, a.name, canon(a.value))
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		yield (tag, 'value', failed(e))
	if v is None or isinstance(v, bytes):
		return
	yield (tag, canon(v))
	for n in ('entries', 'index_entries', 'data_parsed'):
		if hasattr(v, n):
			for x in steps((tag, n), getattr(v, n)):
				yield x
	if isinstance(v, Attributes.EA):
		for x in wsl_items(tag, v):
			yield x
	if hasattr(v, 'index_buffers'):
		try:
			for b in v.index_buffers():
				yield (tag, 'buffer', canon(b))
				for x in steps((tag, 'entries'), b.index_entries):
					yield x
		except (Limit, MemoryError, RecursionError, Violation):
			raise
		except Exception as e:
			yield (tag, 'buffers', failed(e))


def wsl_items(tag, v):
	try:
		for name, flags, value in v.data_parsed():
			if name == b'LXATTRB':
				yield (tag, call(lambda: WSL.LXATTRB(value)))
			elif name == b'LXXATTR':
				for x in steps((tag, 'LXXATTR'), lambda: WSL.LXXATTR(value).extended_attributes()):
					yield x
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		yield (tag, 'wsl', failed(e))


def record_items(p, fr, vol=None):
	n = call(fr.get_master_file_table_number)
	yield ('record', n, accessors(fr))
	try:
		for a in fr.attributes(True):
			for x in attr_items(('attr', n), a, vol):
				yield x
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		yield ('attributes', n, failed(e))
	try:
		for s in fr.slack():
			for x in steps(('slack', n), s.carve):
				yield x
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		yield ('slack', n, failed(e))
	if p is not None:
		yield ('paths', n, call(p.build_full_paths, fr))


def table_items(p, vol=None):
	yield ('statistics', canon(p.statistics))
	paths = []
	try:
		for fr in p.file_records():
			for x in record_items(p, fr, vol):
				if x[0] == 'paths' and isinstance(x[2], tuple) and len(paths) < 12:
					paths.extend(y for y in x[2] if isinstance(y, str))
				yield x
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		yield ('records', failed(e))
	for path in paths[:6]:
		for cs in (False, True):
			yield ('lookup', path, cs, call(lambda: number_of(p.get_file_record_by_path(path, cs))))
	for num in (0, 5, 11, 24, 30):
		yield ('number', num, call(lambda: number_of(p.get_file_record_by_number(num))))


def number_of(fr):
	return None if fr is None else (fr.get_master_file_table_number(), fr.get_sequence_number(), fr.is_in_use())


def gen_mft(d, small=False):
	sim = Sim(d)
	sim.history(3, 8 if small else 14)
	report.enrich(sim, d)
	data = sim.build(d.pick((0, 2)))
	s = Source('mft', [Bytes(data)], lambda f: MFT.MasterFileTableParser(f), table_items, True, [(i, sim.size) for i in range(0, len(data), sim.size)])
	s.sim = sim
	return s


# --- volumes -----------------------------------------------------------------------

def gen_volume(d, small=False):
	from checks.c27 import gen_index
	sim = Sim(d)
	sim.index_streams = False
	sim.history(3, 8 if small else 12)
	tv = TableVolume(d, sim)
	for rec in list(sim.bases()):
		if rec.number in (0, 3) or not (rec.is_dir and d.chance(70)):
			continue
		data, ents, slack = gen_index(sim, d, rec, d.pick((4096, 1024)))
		runs = tv.clusters(data, d.uni(1, 3))
		a = A(0xA0, '$I30', runs=runs, highest=sum(l for _, l in runs) - 1, size=len(data), alloc=sum(l for _, l in runs) * tv.vol.cs)
		if rec.room(sim.size) >= len(a.raw(0)):
			rec.attrs.append(a)
	img = tv.image()
	vo = tv.vol.voff

	def open_(f):
		fs = MFT.FileSystemParser(f, vo)
		return f, fs, MFT.MasterFileTableParser(fs)

	def items(p):
		f, fs, mft = p
		yield ('boot', canon(fs.boot))
		yield ('runs', canon(fs.data_runs), fs.file_size)
		for x in table_items(mft, (f, vo, fs.cluster_size)):
			yield x
		for num in (0, 5, 11):
			def read():
				fr = mft.get_file_record_by_number(num)
				runs = fr.get_data_runs()
				if runs is None or sum(y for _, y in runs) * fs.cluster_size > 1 << 22:
					return None
				return MFT.FragmentedFile(f, vo, fs.cluster_size, runs, min(fr.get_data_size(), 1 << 20)).read()
			yield ('data', num, call(read))
	hot = [(vo, 512)] + [(vo + c * tv.vol.cs, tv.vol.cs) for c in tv.lcns] + [(vo + c * tv.vol.cs, tv.vol.cs) for l, _ in tv.stored for c in l]
	return Source('volume', [Bytes(img)], open_, items, True, hot)


# --- journal, log ------------------------------------------------------------------

def usn_items(p):
	try:
		for rec in p.usn_records():
			yield ('usn', canon(rec), call(lambda: tuple(rec.extents())) if hasattr(rec, 'extents') else None)
	except (Limit, MemoryError, RecursionError, Violation):
		raise
	except Exception as e:
		yield ('usn', failed(e))


def gen_usn(d, small=False):
	from checks.c13 import gen_journal
	data, recs, events = gen_journal(d, d.int(1, 6 if small else 12))
	return Source('usn', [Bytes(data)], lambda f: USN.ChangeJournalParser(f), usn_items, True, [(i, 512) for i in range(0, len(data), 512)])


def log_items(p, recover=(True, False, True)):
	for page in (p.restart_page_1, p.restart_page_2):
		if page is not None:
			yield ('restart', canon(page))
			for x in steps('client', lambda: page.get_restart_area().clients()):
				yield x
	for rec in recover:
		try:
			for x in p.parse_ntfs_records(rec):
				yield ('log', rec, x.lsn, getattr(x, 'transaction_id', None), canon(x))
		except (Limit, MemoryError, RecursionError, Violation):
			raise
		except Exception as e:
			yield ('log', rec, failed(e))


def gen_log(d, small=False):
	if d.chance(40):
		from checks.c27 import log_history
		sim = Sim(d)
		sim.history(2, 6)
		image = log_history(d, sim, d.chance(30))[0]
	else:
		from checks import c14
		log, ops = c14.gen_log(d, d.int(3, 20 if small else 30))
		log.flush()
		log.apply(*((d.int(0, len(log.writes)),) if log.writes and d.bool() else ()))
		p1, p2, roots = c14.gen_restart(d, log, [x.lsn for x in log.recs][-40:])
		image = log.image(p1, p2)
	recover = d.pick(((True, False, True), (False, True, False), (False, True)))
	return Source('log', [Bytes(image)], lambda f: LogFile.LogFileParser(f), lambda p: log_items(p, recover), False, [(i, 4096) for i in range(0, len(image), 4096)])


# --- shadow copies -----------------------------------------------------------------

def gen_vss(d, small=False):
	two = d.chance(25)
	sim, user = vss.gen_history(d, two, maxops=10 if small else 16, big=d.chance(10), maxsnaps=3)
	if not sim.snaps:
		raise Discard()
	off, soff = d.pick((0, 512)), d.pick((0, 512)) if two else 0
	img = vss.gen_image(d, sim, user, volume_offset=off, storage_offset=soff)
	img.finish(ncontrol=d.int(1, 2), shuffle=d.bool(), free_items=d.int(0, 2))
	from checks.c17 import interesting
	blocks = sorted(set(b for s in sim.snaps for b in interesting(sim, user, s)))[:24]

	def open_(*f):
		if two:
			return ShadowCopy.ShadowParserTwoVolumes(f[0], f[1], off, None, soff)
		return ShadowCopy.ShadowParser(f[0], off)

	def items(p):
		for x in steps('shadow', p.shadows):
			yield x
		for s in sim.snaps:
			yield ('select', s.pos, call(p.select_shadow, s.guid))
			yield ('size', s.pos, p.current_volume_size)
			for b in blocks:
				yield ('block', s.pos, b, call(read_block, p, b))
		for b in blocks[:5]:
			for s in sim.snaps:
				call(p.select_shadow, s.guid)
				yield ('same block', s.pos, b, call(read_block, p, b))
	files = [Other(img.volume())] + ([Other(img.storage())] if two else [])
	s = Source('vss', files, open_, items, False, [], '; '.join(sim.log)[:200])
	hot = [[(off + 0x1E00, 512)], []]
	for n in img.local if two else img.store:
		hot[0].append((off + n * vss.BLK, vss.BLK))
	if two:
		for n in img.store:
			hot[1].append((soff + n * vss.BLK, vss.BLK))
	s.hots = hot
	s.hot = hot[0]
	return s


def read_block(p, b):
	p.seek(b * vss.BLK)
	return p.read(vss.BLK)


# --- FAT, exFAT --------------------------------------------------------------------

def walk_items(p, walk, read):
	for scan in (False, True):
		n = 0
		try:
			for e in walk(scan):
				yield ('entry', scan, canon(e))
				n += 1
				if n > 3000:
					return
				if not scan and hasattr(e, 'first_cluster') and not getattr(e, 'is_directory', True) and n < 60:
					yield ('data', call(read, e))
		except (Limit, MemoryError, RecursionError, Violation):
			raise
		except Exception as e:
			yield ('walk', scan, failed(e))


def gen_fat(d, small=False):
	t = fattree.Tree(d, d.pick((12, 16, 32)))
	off = t.v.offset
	img = t.v.image()

	def items(p):
		yield ('boot', canon(p.bsbpb), p.fat_type, p.cluster_size, canon(p.fat))
		for x in walk_items(p, lambda scan: p.walk('cp437', scan), lambda e: p.read_chain(e.first_cluster, min(e.size, 1 << 16))):
			yield x
	s = Source('fat', [Other(img)], lambda f: FAT.FileSystemParser(f, off), items, True, parts_of(img))
	return s


def gen_exfat(d, small=False):
	t = exfat.Tree(d)
	img = t.image()
	off = t.offset

	def items(p):
		yield ('boot', canon(p.br))
		for x in walk_items(p, lambda scan: p.walk(scan), lambda e: p.read_chain(e.first_cluster, min(e.size, 1 << 16), e.no_fat_chain)):
			yield x
	return Source('exfat', [Other(img)], lambda f: exFAT.FileSystemParser(f, off), items, True, parts_of(img))


def parts_of(img):
	return [(o, len(b)) for o, b in img.parts]


# --- partition tables, move table, memory ------------------------------------------

def gen_gpt(d, small=False):
	from checks import c19
	ss = d.pick((512, 4096))
	n = d.pick((4, 16, 128))
	sectors = d.int(700, 5000)
	arr, guid, extra = b'', d.blob(16), d.blob(ss)
	for _ in range(n):
		arr += c19.gpt_entry(d, 128, d.chance(40))[1]
	per = max(1, -(-len(arr) // ss))
	img = Sparse(sectors * ss)
	for w in range(2):
		f = dict(sig=b'EFI PART', rev=0x10000, hsize=92, res=0, my=(1, sectors - 1)[w], alt=(sectors - 1, 1)[w], first=2 + 16384 // ss, last=sectors - 40, guid=guid, elba=(2, sectors - 1 - per)[w], n=n, esize=128, ecrc=binascii.crc32(arr), extra=extra)
		img.put(f['my'] * ss, c19.gpt_header(ss, f))
		img.put(f['elba'] * ss, arr)

	def items(p):
		try:
			h = p.read_gpt_header()
		except (Limit, MemoryError, RecursionError, Violation):
			raise
		except Exception as e:
			yield ('header', failed(e))
			return
		yield ('header', canon(h))
		yield ('partitions', call(p.read_gpt_partitions, h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32))
	return Source('gpt', [Other(img)], lambda f: PartitionTable.GPT(f, ss), items, False, parts_of(img))


def gen_mbr(d, small=False):
	ss = d.pick((512, 4096))
	sectors = d.int(300, 4000)
	img = Sparse(sectors * ss)
	ext = d.int(10, 100)

	def entry(t, lba, n):
		return struct.pack('<B3sB3sLL', d.pick((0, 0x80)), d.blob(3), t, d.blob(3), lba, n)
	ents = [entry(d.pick((7, 0x83, 0)), d.int(1, 9), d.int(1, 9)) for _ in range(3)] + [entry(d.pick((5, 0xF)), ext, sectors - ext)]
	img.put(0, d.blob(440) + d.blob(6) + b''.join(ents) + b'\x55\xAA')
	at = [0] + sorted(set(d.int(1, sectors - ext - 1) for _ in range(d.int(0, 4))))
	for a, b in zip(at, at[1:] + [None]):
		e = entry(d.pick((7, 0x83)), d.int(1, 5), d.int(1, 50))
		e += entry(5, b, d.int(1, 50)) if b is not None else bytes(16)
		img.put((ext + a) * ss, d.blob(446) + e + bytes(32) + b'\x55\xAA')

	def items(p):
		yield ('mbr', call(p.read_mbr))
		yield ('primary', call(lambda: tuple(p.read_mbr_partitions())))
		yield ('extended', call(lambda: tuple(p.read_ebr_partitions())))
	return Source('mbr', [Other(img)], lambda f: PartitionTable.MBR(f, ss), items, False, parts_of(img))


def gen_move(d, small=False):
	from checks import c20
	ss = d.pick((512, 4096))
	per = (ss - 16) // 124
	data = (c20.SIG + d.blob(24) + c20.machine(d)[1] + c20.guid(d) + d.blob(60)).ljust(ss, b'\x00')
	for _ in range(d.int(1, 4)):
		sec = b''.join(c20.entry(d, 2 if d.chance(60) else 1, d.u(32))[1] for k in range(per))
		data += sec.ljust(ss - 16, b'\x00') + d.blob(16)

	def items(p):
		yield ('header', call(lambda: p.get_header()), call(lambda: p.get_header().get_extended_header()))
		try:
			for s in p.log_sectors():
				yield ('sector', canon(s))
		except (Limit, MemoryError, RecursionError, Violation):
			raise
		except Exception as e:
			yield ('sectors', failed(e))
		for x in steps('entry', p.log_entries):
			yield x
	return Source('move', [Bytes(data)], lambda f: MoveTable.MoveTableParser(f), items, True, [(i, ss) for i in range(0, len(data), ss)])


def gen_mem(d, small=False):
	from checks import c31
	p, a = c31.layout(d)
	blocks = [c31.fcb(d, p, a)[0] for _ in range(d.int(26, 50))]
	img, placed = c31.plant(d, blocks, False)
	return Source('mem', [Bytes(img)], lambda f: MFT.MetadataCarver(f), lambda p: steps('fcb', p.carve_fcb_timestamps), False, [(o, 256) for o, _ in placed])


KINDS = dict(mft=gen_mft, volume=gen_volume, usn=gen_usn, log=gen_log, vss=gen_vss, fat=gen_fat, exfat=gen_exfat, gpt=gen_gpt, mbr=gen_mbr, move=gen_move, mem=gen_mem)
