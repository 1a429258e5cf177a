"""Planted bugs: the other formats and the tools. Those without a 'demo' get a stored minimal case with a copy of its oracle."""
M = 'dfir_ntfs/MFT.py'
A = 'dfir_ntfs/Attributes.py'
L = 'dfir_ntfs/LogFile.py'
S = 'dfir_ntfs/ShadowCopy.py'
P = 'dfir_ntfs/PartitionTable.py'
W = 'dfir_ntfs/WSL.py'
O = 'dfir_ntfs/MoveTable.py'
B = 'dfir_ntfs/BootSector.py'
F = 'dfir_ntfs/addons/FAT.py'
E = 'dfir_ntfs/addons/exFAT.py'
SEEDS = []


def add(id, edits, needs, breaks, demo=None, **kw):
	s = dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, **kw)
	if demo is not None:
		s['demo'] = demo
	SEEDS.append(s)


add('C19-empty-logical', [(P, "				if partition is not None and partition.os_type != 0:\n					results.append(partition)", "				if partition is None or partition.os_type == 0:\n					break\n\n				results.append(partition)")],
	'a chain of extended boot records with an empty slot (a deleted logical partition) in the middle', 'the partitions after it are not reported')

add('C30-block-limit', [(W, "block_raw = self.value[pos_block : pos_block + next_block_pos_relative]", "block_raw = self.value[pos_block : ]")],
	'an attribute whose stated value length runs past its own block into the next one', 'bytes of the next attribute are reported as the value of a truncated one',
	'''
import struct
from dfir_ntfs import WSL
def block(nxt, name, value, vlen):
	return struct.pack('<LHB', nxt, vlen, len(name)) + name + value
b1 = block(20, b'user.a', b'1234567', 7)
b2 = block(16, b'user.b', b'xyz', 9)
b3 = block(0, b'user.c', b'last', 4)
v = struct.pack('<HH', 0, 1) + b1 + b2 + b3
got = list(WSL.LXXATTR(v).extended_attributes())
assert got == [(b'user.a', b'1234567')], got
''')

add('C20-gap', [(O, "				if log_entry.get_log_entry_type() == LOG_ENTRY_TYPE_UNUSED:\n					continue\n", "				if log_entry.get_log_entry_type() == LOG_ENTRY_TYPE_UNUSED:\n					break\n")],
	'a sector with an unused slot before a used one', 'the entries after the unused slot are not reported')

add('C21-fat12-tail', [(F, "			if fat_item_offset + 2 > self.fat_size or", "			if fat_item_offset + 2 >= self.fat_size or")],
	'a FAT12 table whose last entry ends exactly with the table', 'the last cluster cannot be followed',
	'''
import io
from dfir_ntfs.addons import FAT
t = bytearray(512)
t[510:512] = (0x123).to_bytes(2, 'little')
f = FAT.FAT(io.BytesIO(bytes(t)), 0, 512, 340, 12)
assert f.get_element(340) == 0x123
''')

add('C21-far', [(F, "			self.volume_object.seek(self.volume_offset + cluster_offset)", "			self.volume_object.seek(self.volume_offset + (cluster_offset & 0xFFFFFFFF))")],
	'a cluster 4 GiB or more from the start of the volume', 'data is read from the wrong place')

add('C22-lfn-checksum', [(F, "				# Check if checksums match.\n				if long_checksum == prev_long_checksum:\n					# Check if the LAST", "				# Check if checksums match.\n				if True:\n					# Check if the LAST")],
	'two interleaved long names (the rest of an overwritten set followed by parts of another one)', 'parts of different long names are glued together')

add('C23-orphan-dot', [(F, "buf[32 : 35] != b'.. ' or buf[0 : 2] != b'. ':", "buf[32 : 35] != b'.. ':")],
	'an unallocated cluster which has the second but not the first dot entry', 'a cluster that is not a directory is reported as an orphan directory')

add('C24-second-bitmap', [(E, "and entry.bitmap_id == active_fat:", ":")],
	'a volume with two tables and two different allocation bitmaps', 'the bitmap not in force decides the allocation status')

add('C25-name-15', [(E, "							elif name_length % 15 == 0:\n								max_file_name_count = name_length // 15\n", "")],
	'a set with a name of exactly 15 or 30 characters and an extra name entry', 'a damaged set is reported as a file')

add('C14-fast-order', [(L, "fast_pages.sort(key = lambda x: x.get_last_lsn())", "fast_pages.sort(key = lambda x: x.get_last_end_lsn())")],
	'a 2.0 log with two fast copies of one page, the newer one ending inside of a record that spans pages', 'an older copy overwrites the newer one, losing records')

add('C15-shared-table', [(L, "client_data_decoded.oat = oat.copy()", "client_data_decoded.oat = oat")],
	'records decoded into a list before looking at their targets, with an attribute slot reused later', 'early records show the targets of later ones')

add('C17-overlay-or', [(S, "						cumulative_allocation_bitmap |= table_entry.allocation_bitmap", "						cumulative_allocation_bitmap = table_entry.allocation_bitmap", (2, 0))],
	'two overlay entries and one regular entry for the same block', 'parts of the block written by the first overlay are replaced')

add('C17-skip-store', [(S, "				next_parser = next_parser.current_next_parser", "				break", (2, 0))],
	'three snapshots, with a block saved only in the newest store and marked in the bitmap of the oldest one', 'the block is read as empty')

add('C10-large-buffers', [(A, "index_buffer_size <= 119808: #", "index_buffer_size <= 65536: #")],
	'index buffers larger than 64 KiB (large clusters)', 'such indexes yield nothing')

add('C11-colon', [(M, "if '/' in file_name or '\\x00' in file_name:", "if '/' in file_name or ':' in file_name or '\\x00' in file_name:")],
	'a leftover name with a colon (POSIX name space)', 'the name is not recovered')

add('C12-mft-cluster', [(B, "struct.unpack('<Q', self.boot_sector_data[48 : 56])[0]", "struct.unpack('<L', self.boot_sector_data[48 : 52])[0]")],
	'a file table starting at cluster 2**32 or later', 'the file table is looked for in the wrong place')

# Changes of the tools themselves (no .py suffix) are not accepted as planted bugs; they were swept separately.

add('C01-tail-sector', [(M, "if usa_elements_applied * UPDATE_SEQUENCE_STRIDE < self.get_first_free_byte_offset():", "if (usa_elements_applied + 1) * UPDATE_SEQUENCE_STRIDE <= self.get_first_free_byte_offset():")],
	'a torn sector which holds only the last few used bytes of a record', 'the damaged record is accepted')

add('C02-name-replace', [(M, "attribute_name = attribute_name_bytes.decode('utf-16le', errors = 'replace')", "attribute_name = attribute_name_bytes.decode('utf-16le', errors = 'ignore')")],
	'an attribute name with an unpaired surrogate', 'the name loses a character and may equal another name')

add('C03-zero-after-hole', [(M, "curr_offset == 0 and len(data_runs) > 0", "curr_offset == 0 and any(x[0] is not None for x in data_runs)")],
	'a run list with a hole first and then a run at cluster 0', 'an unallocated run is reported as cluster 0 of the volume')
