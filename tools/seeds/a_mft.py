"""Planted bugs: file table."""
M = 'dfir_ntfs/MFT.py'
A = 'dfir_ntfs/Attributes.py'
U = 'dfir_ntfs/USN.py'
SEEDS = []

SEEDS.append(dict(id='C01-usa-boundary', property='C01',
	edits=[(M, "	def apply_update_sequence_array(self):", "	def apply_update_sequence_array(self):")] if False else [],
	needs='', breaks='', demo=''))
SEEDS.pop()

SEEDS.append(dict(id='C04-sparse-tail', property='C04',
	edits=[(M, """				if offset is None: # This is a sparse cluster.
					return b'\\x00' * self.cluster_size

				offset += virtual_cluster_number - clusters_skipped
""", """				if not offset: # This is a sparse cluster.
					return b'\\x00' * self.cluster_size

				offset += virtual_cluster_number - clusters_skipped
""")],
	needs='a stream whose first run starts at cluster 0 of the volume (the boot file)',
	breaks='such a stream reads as zeroes instead of its bytes', vlib=[],
	demo='''
import io
from dfir_ntfs import MFT
vol = bytes(range(256)) * 16
f = MFT.FragmentedFile(io.BytesIO(vol), 0, 512, [(0, 2), (4, 1)], 1500)
assert f.read() == (vol[:1024] + vol[2048:2560])[:1500]
'''))

SEEDS.append(dict(id='C05-stale-child', property='C05',
	edits=[(M, """				elif sequence_number == 0:
						sequence_number = 0xFFFF # Handle the overflow.
					# When a file record segment is allocated, the existing sequence number is used, if it is not equal to zero (if it is, then the sequence number is set to one).
					# Some sources state something different from that.

				reference = EncodeFileRecordSegmentReference(mft_number, sequence_number)
				if reference in self.child_cache.keys():
					child_frs_list = []
					for child_frs_number in self.child_cache[reference]:
						child_frs_list.append(self.get_file_record_segment_by_number(child_frs_number))

					yield""", """				elif sequence_number == 0:
						sequence_number = 0xFFFE # Handle the overflow.
					# When a file record segment is allocated, the existing sequence number is used, if it is not equal to zero (if it is, then the sequence number is set to one).
					# Some sources state something different from that.

				reference = EncodeFileRecordSegmentReference(mft_number, sequence_number)
				if reference in self.child_cache.keys():
					child_frs_list = []
					for child_frs_number in self.child_cache[reference]:
						child_frs_list.append(self.get_file_record_segment_by_number(child_frs_number))

					yield""")],
	needs='a deleted file with an extension record whose sequence number wrapped from 0xFFFF to 0',
	breaks='the extension records of that file are not joined when enumerating', vlib=['ntfs'],
	demo='''
from dfir_ntfs import MFT
from vlib import ntfs
t = ntfs.Table(1024)
t.system()
fn = ntfs.attr_resident(0x30, ntfs.fn_value(ntfs.ref(5, 5), 1, 1, 1, 1, name='x'))
t.add(ntfs.Record(30, 0, 0, attrs=[fn]))
t.add(ntfs.Record(31, 3, 0, base=ntfs.ref(30, 0xFFFF), attrs=[ntfs.attr_resident(0x80, b'data')]))
p = MFT.MasterFileTableParser(ntfs.ROFile(t.build()))
r = [x for x in p.file_records() if x.get_master_file_table_number() == 30][0]
assert len(list(r.attributes())) == 2
'''))

SEEDS.append(dict(id='C06-cycle-root', property='C06',
	edits=[(M, """						if current_file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT == 0:
							# Not a directory.
							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
							break

			path""", """						if current_file_record.get_flags() & (FILE_FILE_NAME_INDEX_PRESENT | 1) == 0:
							# Not a directory.
							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
							break

			path""")],
	needs='a grandparent which is an allocated file, not a directory (a reused record with a matching reference)',
	breaks='the path continues through a file instead of being marked as orphaned', vlib=['ntfs'],
	demo='''
from dfir_ntfs import MFT
from vlib import ntfs
t = ntfs.Table(1024)
t.system()
def rec(n, flags, parent, name):
	t.add(ntfs.Record(n, 1, flags, attrs=[ntfs.attr_resident(0x30, ntfs.fn_value(parent, 1, 1, 1, 1, name=name))]))
rec(30, 1, ntfs.ref(5, 5), 'file')
rec(31, 3, ntfs.ref(30, 1), 'dir')
rec(32, 1, ntfs.ref(31, 1), 'leaf')
p = MFT.MasterFileTableParser(ntfs.ROFile(t.build()))
got = p.build_full_paths(p.get_file_record_by_number(32))
assert got == ['<Orphan>/dir/leaf'], got
'''))

SEEDS.append(dict(id='C13-chunk-edge', property='C13',
	edits=[(U, """			except (ValueError, NotImplementedError):
				# An invalid (or missing) USN record.
				pos += 8
				continue
""", """			except NotImplementedError:
				# A USN record with an unknown version, skip it.
				pos += max(8, min(struct.unpack('<L', buf[ : 4])[0] & ~7, 64))
				continue
			except ValueError:
				# An invalid (or missing) USN record.
				pos += 8
				continue
""")],
	needs='garbage with an unknown version number and a plausible length directly before an intact record',
	breaks='the intact record after it is skipped', vlib=['engine', 'ntfs', 'usn'],
	demo='''
import random, struct
from dfir_ntfs import USN
from vlib import ntfs, usn, engine
d = engine.Draw(random.Random(1))
w = usn.Rec(d, 2)
data = struct.pack('<LHH', 32, 9, 0) + w.bytes()
got = list(USN.ChangeJournalParser(ntfs.ROFile(data)).usn_records())
assert [g.get_usn() for g in got] == [w.usn]
'''))
