#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None):
	assert len(title) <= 80, (id, len(title))
	d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
		'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}}
	if observe:
		d['anchors']['observe_at'] = observe
	P.append(d)

M = 'dfir_ntfs/MFT.py'; A = 'dfir_ntfs/Attributes.py'; L = 'dfir_ntfs/LogFile.py'; S = 'dfir_ntfs/ShadowCopy.py'
F = 'dfir_ntfs/addons/FAT.py'; X = 'dfir_ntfs/addons/exFAT.py'; U = 'dfir_ntfs/USN.py'

prop('C01', 'Sector-protected NTFS records decode exactly or are rejected',
	'A file record segment or directory index buffer written with multi-sector (update sequence) protection decodes to exactly the bytes, header fields and allocation/bad/base status it had before protection, for every supported record size, header variant and signature. If any sector that holds used data carries a wrong update sequence value (a torn write), or the protection header, sizes or offsets are inconsistent, the record is rejected and never returned with unprotected or stale bytes. A mismatch confined to the unused tail of a file record does not hide the record.',
	['inputs', 'crash_points'], 'every record content, every sequence number, every subset of torn sectors, both record sizes, all index buffer sizes, long and short headers',
	'Tests decode a handful of sample records; torn sectors form 2^(sectors) subsets per content, and the used-size boundary interacts with each of them.',
	[M, A], [('apply and verify the update sequence array of a file record segment', M + ' FileRecordSegment.apply_update_sequence_array'), ('header validation', M + ' FileRecordSegment.validate_file_record_segment_header'), ('index buffer unprotection', A + ' VerifyAndUnprotectIndexSectors')])

prop('C02', 'Every attribute in a file record is reported once, in order, byte-exact',
	'For every well-formed file record segment, enumerating its attributes yields each stored attribute exactly once and in order, with its exact type, name, and either its exact resident value or its exact VCN range, stream size and cluster runs; the bytes after the end marker, and only those, are reported as slack. A record whose attribute headers are inconsistent (lengths, name or value or run-list offsets leaving the record, impossible sizes or VCN ranges, unknown form) raises the documented error instead of yielding data from outside the attribute.',
	['inputs'], 'every sequence of attributes, names (including non-BMP), value sizes, alignments and every single inconsistent header field',
	'The tests look at a few attributes of a few sample records; offset, length and alignment arithmetic must hold for every combination.',
	[M], [('attribute enumeration and header checks', M + ' FileRecordSegment.attributes'), ('slack after the end marker', M + ' FileRecordSegment.get_slack')])

prop('C03', 'Run lists (mapping pairs) decode to exactly the runs that were encoded',
	'Decoding a run list returns exactly the encoded list of cluster runs: absolute start clusters accumulated from signed deltas of any width, exact lengths, and sparse runs marked as having no location without disturbing the following deltas. A truncated, unterminated or malformed run list (zero or over-wide fields, non-positive lengths, a non-first run at cluster zero) is rejected with the documented error and never yields a wrong run.',
	['inputs'], 'every run list, including non-minimal field widths, negative deltas, sparse runs in any position and every truncation point',
	'Existing tests decode a few fixed run lists; sign extension and accumulation errors only show for particular widths and orders.',
	[M], [('mapping pairs decoding', M + ' DecodeMappingPairs')])

prop('C04', 'Reading a stream from a volume returns exactly its bytes at any position',
	'For any cluster size, volume offset, run list and stream size, every sequence of seek, tell and read calls on a non-resident stream behaves as on an ordinary file holding the stream contents: sparse runs read as zeroes, reads never return bytes past the end of the stream, positions advance by the bytes returned, and invalid seeks are refused without moving. If a needed cluster is missing from the image or the run list, the read fails with the documented error instead of returning other bytes.',
	['inputs', 'histories'], 'every run list layout and every sequence of seek/tell/read operations, including across fragment, cluster and end-of-file boundaries and images truncated at any point',
	'Tests read a few whole streams sequentially; partial reads across run boundaries form an unbounded family.',
	[M], [('file-like access through data runs', M + ' FragmentedFile.seek/tell/read/read_virtual_cluster')])

prop('C05', 'Files spread over several records are presented as one complete file',
	'Enumerating a file table yields every base record that is intact exactly once (only allocated ones when asked for), each joined with all and only the extension records that refer to its number and sequence number, in use or deleted. Attributes split across extension records can be merged into one stream whose runs, VCN range and size are complete and in VCN order no matter in which record order the pieces are stored, and requesting the runs of a stream whose pieces do not join up (the first or an inner piece missing, or pieces overlapping) is refused rather than answered with wrong runs.',
	['inputs', 'histories'], 'every arrangement of base and extension records, sequence-number reuse (including wrap-around), deletion state, and order of split attributes',
	'The sample tables contain few split files; stale extension records of reused numbers and shuffled pieces do not occur in them.',
	[M], [('first pass collecting extension records', M + ' MasterFileTableParser.execute_first_pass'), ('joining and enumeration', M + ' MasterFileTableParser.file_records/get_file_record_by_number'), ('merging', M + ' FileRecord.attributes/get_data_runs/get_data_size')])

prop('C06', 'Full paths follow the real parent chain, or are marked as orphaned',
	'For every file record, one full path is reported per stored file name, built from that name and the preferred (long) names of the actual chain of parent directories up to the root, with long names listed before short ones. If any parent is missing, reused with a different sequence number, not a directory, nameless, unreadable or part of a cycle, the path starts with the orphan marker in place of the unknown part and is never attached to the wrong directory; path building always terminates.',
	['inputs', 'histories'], 'every directory tree, hard link set, name-space combination, deletion/reuse history and cyclic or broken parent reference',
	'Sample images hold healthy trees; reuse, cycles and broken parents are unbounded combinations.',
	[M], [('path building', M + ' MasterFileTableParser.build_full_paths'), ('sequence number check', M + ' MasterFileTableParser.get_file_record_by_number')])

prop('C07', 'Lookup by number or path finds exactly the intended file',
	'Looking up a record by number and expected sequence number returns that record (or, for an extension record, its base record with all parts) when the sequence matches the allocated or just-deleted generation, and fails otherwise. Looking up a path, case-sensitively or not, returns an allocated file that has exactly that path through any of its names or hard links, honours a trailing separator as "must be a directory", returns nothing when no such file exists, and is not affected by damaged unrelated records.',
	['inputs', 'histories'], 'every directory tree with hard links, short names, equal names in different directories, deleted and reused records, and every queried path, existing or not',
	'Tests query a few paths of fixed images.',
	[M], [('lookup by number', M + ' MasterFileTableParser.get_file_record_by_number'), ('lookup by path', M + ' MasterFileTableParser.get_file_record_by_path')])

prop('C08', 'Metadata attribute values decode to exactly the stored fields',
	'For every standard-information, file-name, object-identifier, volume name/information, attribute-list, index-root, reparse-point, extended-attribute-information and boot-sector structure, each decoded field equals the stored field (correct offset, width, signedness, byte order and text encoding), including short historical variants whose missing fields are reported as absent, and symbolic attribute listings name exactly the flags that are set.',
	['inputs'], 'every value of every field, minimal and maximal values, and all structure variants',
	'Tests compare a few fields of sample structures; a wrong width, sign or neighbouring offset shows only for values not sampled.',
	[A, M, 'dfir_ntfs/BootSector.py'], [('field accessors', A), ('boot sector accessors', 'dfir_ntfs/BootSector.py BootSector'), ('reference encoding', M + ' EncodeFileRecordSegmentReference')])

prop('C09', 'Timestamps convert to the exact calendar time, or to "invalid"',
	'Every 64-bit FILETIME, GUID time, and Unix seconds/nanoseconds value that falls within the representable calendar converts to that exact moment, truncated or rounded to the microsecond with an error below one microsecond and with whole-microsecond values exact; conversion is monotonic. Every value outside the calendar is reported as an absent timestamp (or as an error where the caller asked for one) and never as a wrong date or a crash.',
	['inputs'], 'all 2^64 timestamp values (and second/nanosecond pairs)',
	'Tests sample a few dates; floating-point conversion errors and range ends depend on the particular value.',
	[A, 'dfir_ntfs/WSL.py', U], [('FILETIME and GUID time decoding', A + ' DecodeFiletime/DecodeGUIDTime'), ('Unix time decoding', 'dfir_ntfs/WSL.py DecodeUnixtime')])

prop('C10', 'Directory indexes list every entry once; index slack is everything after them',
	'For every directory index, root part and allocation part alike, the entries yielded are exactly the stored live entries in order, with exact file references, flags, child pointers and file-name values, for any index buffer size, fragmentation and number of buffers. Damaged index buffers other than the first (which tells the buffer size) are skipped without losing entries of other buffers, and the slack reported for a buffer is exactly the bytes after its last used byte.',
	['inputs', 'crash_points'], 'every set of entries, buffer sizes, fragmentation of the index, torn buffers in any subset (the first buffer intact)',
	'Sample directories are few and healthy.',
	[A, M], [('index entry enumeration', A + ' IndexRoot.index_entries, IndexBuffer.index_entries'), ('index buffers', A + ' IndexAllocation')])

prop('C11', 'Names left in slack space are recovered exactly and nothing is invented',
	'Every intact file-name attribute with timestamps in the plausible era lying at an even offset in record or index slack is recovered with exactly its parent reference, timestamps, sizes, flags and name, in order, also when the slack is given in several pieces or when the leading parent reference has been overwritten. Slack holding no such structure yields nothing, and a partially overwritten leading name is reported only when enough recognisable characters are left.',
	['inputs'], 'every slack content, position, number and spacing of left-over names',
	'Tests carve a few sample records.',
	[M], [('carving', M + ' SlackSpace.carve'), ('record slack', M + ' FileRecord.slack')])

prop('C12', 'The file table of a volume is found and read however it is laid out',
	'Opening an NTFS volume at any offset in an image, with any valid sector, cluster and record size, gives a file-like view of the file table that is byte-identical to the table stored on the volume, whether it is contiguous, fragmented, or so fragmented that its run list continues in extension records described by a resident or non-resident attribute list. Geometry in the boot sector that is invalid is refused with the documented error.',
	['inputs', 'configurations'], 'all volume geometries, volume offsets, table fragmentations and attribute-list layouts',
	'Tests use a few images with fixed geometry.',
	[M, 'dfir_ntfs/BootSector.py'], [('volume parsing', M + ' FileSystemParser'), ('geometry', 'dfir_ntfs/BootSector.py BootSector')])

prop('C13', 'The change journal reports every intact record exactly, wherever it lies',
	'Reading a change journal yields every intact record (versions 2, 3 and 4) exactly once and in file order with exact field values, whatever sparse zero regions, page padding, garbage or damaged records lie between them and wherever records fall relative to read boundaries. Nothing that is not a complete valid record is reported, reason and source codes are named completely, and unnamed bits never hide named ones.',
	['inputs'], 'every sequence of records, gaps, padding and damage, and every alignment relative to internal buffers',
	'Tests parse a few sample journals.',
	[U], [('scanning', U + ' ChangeJournalParser.usn_records'), ('record parsing', U + ' GetUsnRecord, USN_RECORD_V2_OR_V3, USN_RECORD_V4'), ('code resolution', U + ' ResolveReasonCodes/ResolveSourceCodes')])

prop('C14', 'The log file yields every surviving log record, in order and byte-exact',
	'For a log file written by any sequence of log writes, wrapping around any number of times, parsing yields every fully stored record that the restart areas, page headers, record order or record links lead to, exactly once, in increasing log-sequence order, with exact header fields and client data, including records spanning pages and the wrap point; records already overwritten are not reported. Records that so far exist only in the tail copies (format 1.1) or in the fast pages (format 2.x) are included, and torn, stale or incomplete pages never yield wrong data: a record whose continuation page is torn, overwritten or not yet written is reported with its genuine leading bytes only, or not at all.',
	['histories', 'crash_points', 'inputs'], 'every sequence of record sizes and flushes, every wrap position, page size and log format version, and every torn page',
	'Tests use a few captured log files; wrap positions and multi-page records form an unbounded history space.',
	[L], [('LSN arithmetic', L + ' LogFileParser.lsn_to_offset/offset_to_lsn'), ('record discovery', L + ' LogFileParser.collect_lsns'), ('payload assembly', L + ' LogFileParser.get_client_data'), ('tail and fast pages', L + ' LogFileParser.apply_tail_page/apply_fast_pages'), ('page protection', L + ' UnprotectSectors')])

prop('C15', 'Logged NTFS operations decode to their true operations, data and targets',
	'For every NTFS client log record, the decoded redo and undo operations, redo and undo data, attribute and record offsets, cluster numbers and target block details equal what was logged. The file record number, file reference, attribute name and offset in the target are resolved exactly from the record and from the open-attribute and attribute-name tables in force at that point of the log (dumped tables or logged open operations), and an unresolvable target is reported as unknown rather than as a wrong file.',
	['inputs', 'histories'], 'every log record content, geometry and history of open-attribute operations and table dumps',
	'Tests check a few fields of captured logs.',
	[L], [('record accessors and target resolution', L + ' NTFSLogRecord'), ('tables', L + ' OpenAttributeTableDumpParser, AttributeNamesDumpParser'), ('history', L + ' LogFileParser.parse_ntfs_records')])

prop('C16', 'Evidence is never modified and parsing is repeatable',
	'No parser or command of the toolkit ever writes to, truncates or otherwise changes the images and files it is given; working copies for log replay are separate and temporary. Parsing the same input again, with the same or a fresh parser object and after any other interleaved use of the source file position, gives identical results.',
	['inputs', 'histories'], 'every input to every parser, every interleaving of iterators and reads over a shared file object',
	'Tests never compare inputs before and after, nor results of repeated or interleaved use.',
	[M, L, S, F, X, U, 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/PartitionTable.py', 'ntfs_parser', 'fat_parser', 'vsc_mount'], [('copy-on-write for log replay', L + ' LogFileParser.prepare_for_writes/discard_changes'), ('absolute seeks before each read', 'all parsers')])

prop('C17', 'A shadow copy reproduces the volume exactly as it was at snapshot time',
	'For a volume with any number of snapshots and any history of writes between them, reading any shadow copy at any position and size returns exactly the bytes the volume held when that snapshot was taken, through copied blocks, sector-granular overlays, forwarded blocks and later snapshots. Blocks no snapshot tracked read as zeroes (or, if the snapshot asks for that, as the current volume), reads clip at the end of the volume, and positions behave as in an ordinary file.',
	['histories', 'inputs'], 'every history of writes, snapshots and block remappings, and every sequence of seeks and reads',
	'Tests compare a few captured images with stored hashes.',
	[S], [('block translation', S + ' ShadowParser.translate_exact_offset'), ('metadata parsing', S + ' ShadowParser.parse_metadata and block classes'), ('reads', S + ' ShadowParser.read')])

prop('C18', 'Snapshots are listed and selected correctly, also with a separate storage volume',
	'All snapshots recorded in the volume metadata are listed with exact identifiers, creation times, sizes, flags and stack positions in the order recorded; selecting by identifier or by position gives that snapshot, and an unknown one is refused; after a refused or failed selection nothing but the earlier selected snapshot (or an error) is read. Volumes without shadow copies, invalid volumes and damaged metadata are reported through the documented errors, and a snapshot whose data lives on a separate storage volume reads exactly the bytes of snapshot time.',
	['inputs', 'histories'], 'every number, order and placement of snapshot records across control blocks, both storage layouts, all volume offsets',
	'Tests list a few captured images.',
	[S], [('listing', S + ' ShadowParser.shadows'), ('selection', S + ' ShadowParser.select_shadow'), ('two volumes', S + ' ShadowParserTwoVolumes')])

prop('C19', 'Partition tables give exactly the partitions on the disk',
	'For a disk with a GUID partition table, the non-empty entries are reported with exact types, identifiers, bounds, attributes and names, from the primary copy if it is valid and otherwise from the backup copy, and a table failing its checksums is never used. For a disk with a classic table, all primary and logical partitions are reported with exact absolute bounds and types, following extended tables in order and stopping at loops or damage.',
	['inputs', 'crash_points'], 'every partition layout, sector size, entry size and any damage to either copy',
	'Tests parse a few sample tables.',
	['dfir_ntfs/PartitionTable.py'], [('GPT', 'dfir_ntfs/PartitionTable.py GPT'), ('MBR and EBR', 'dfir_ntfs/PartitionTable.py MBR')])

prop('C20', 'The object move log reports every entry with exact identifiers and times',
	'Reading a distributed link tracking log yields each stored entry exactly once and in order with exact object, droid and birth identifiers, machine name, identifier timestamps and time range, for both supported sector sizes and whatever number of sectors are full or partly used, and the header fields are exact. Files with an invalid header or unsupported entry types are refused with the documented error.',
	['inputs'], 'every sequence of entries, sector fill level and sector size',
	'One or two sample files are parsed by the tests.',
	['dfir_ntfs/MoveTable.py'], [('parsing', 'dfir_ntfs/MoveTable.py MoveTableParser')])

prop('C21', 'FAT volumes: type, allocation chains and file contents are read exactly',
	'For every valid FAT12, FAT16 or FAT32 volume at any sector-aligned image offset, the file system variant, geometry and label fields are determined exactly, following an allocation chain visits exactly its clusters in order (bad clusters marked, loops cut, out-of-range links refused), and reading a chain returns exactly the file bytes clipped to the given size. Inconsistent boot sectors are refused with the documented error.',
	['inputs', 'configurations'], 'every geometry around the 12/16/32 boundaries, every table content, chain and file size',
	'Tests use a few images.',
	[F], [('boot sector', F + ' BSBPB'), ('table', F + ' FAT.get_element/chain'), ('content', F + ' FileSystemParser.read_chain')])

prop('C22', 'FAT directory entries decode to exact names, times, sizes and states',
	'Every short or long directory entry, live or deleted, is reported once, in order, with exact long name, short name (including case bits and special first characters), attributes, size, first cluster, timestamps and deletion state. A long name is attached only to the short entry whose checksum and sequence it matches, left-over long name pieces are reported as partial names, and entries that are not valid directory entries are not reported as files.',
	['inputs'], 'every sequence of directory entries, name, code page, timestamp and partial overwrite',
	'Tests read a few sample directories.',
	[F], [('entry decoding', F + ' DirectoryEntries.entries'), ('names', F + ' BuildLongName/ParseShortName/BuildChecksum'), ('times', F + ' DecodeFATDate/DecodeFATTime')])

prop('C23', 'Walking a FAT volume lists the whole tree, with deleted data, and always ends',
	'Walking any FAT volume yields every entry of every reachable directory exactly once under its exact path, descends into deleted directories whose clusters were not reused, lists the contents of deleted directories that are still allocated and found nowhere else under an orphan heading, and reports dot entries without ever descending into them. An entry that leads back to a directory on its own path is not followed or listed. A directory loop, damaged chain or damaged directory ends only its own branch, and the walk always terminates.',
	['inputs', 'histories'], 'every directory tree, deletion and reuse history, loops and damaged chains',
	'Tests walk a few images.',
	[F], [('walk', F + ' FileSystemParser.walk')])

prop('C24', 'exFAT volumes: boot region, chains and file contents are read exactly',
	'For every valid exFAT volume at any image offset and sector size, geometry and flags are exact, the boot region is accepted only with a correct checksum and otherwise the backup region is used (512- and 4096-byte sectors), the active allocation table and bitmap are the ones in force, and reading a chained or contiguous stream returns exactly its bytes clipped to its size. Invalid boot regions are refused with the documented error, and chains with loops, bad or out-of-range links never yield wrong data.',
	['inputs', 'configurations', 'crash_points'], 'every geometry, damage to either boot region, allocation table and bitmap contents, stream sizes',
	'Tests use a few images.',
	[X], [('boot region', X + ' BR.validate'), ('table', X + ' FAT.chain'), ('content', X + ' FileSystemParser.read_chain'), ('bitmap', X + ' Bitmap.is_allocated')])

prop('C25', 'exFAT directory walks list every file exactly, live or deleted, and always end',
	'Walking any exFAT volume yields every valid live entry set (correct checksum and structure) exactly once under its exact path with exact name, size, valid length, attributes, timestamps, time zones, flags and first cluster, plus the volume label; deleted entry sets and orphaned name pieces are reported as such, and entry sets failing validation are not reported as files. Loops, damaged directories and reused clusters affect only their own branch, and the walk always terminates.',
	['inputs', 'histories'], 'every directory tree, entry set, deletion and reuse history and damage',
	'Tests walk a few images.',
	[X], [('entry sets', X + ' DirectoryEntries.entries'), ('walk', X + ' FileSystemParser.walk')])

prop('C26', 'Damage stays local: parsing ends, fails cleanly and keeps intact data',
	'For arbitrary damage to any input, every parser finishes with work bounded by the input size and either returns data or raises one of its documented errors (module-level exceptions, invalid value, not implemented, a structure-unpacking error from the accessor or iterator of an attribute value too short for the field, or the seek error of the file object for an impossible offset). Damage confined to one file record (other than the records of the file table itself and of the volume), journal record, subdirectory, snapshot store, move log entry or memory block does not change what is reported for the undamaged ones; only snapshots older than the damaged store, which need it, may change with it.',
	['inputs', 'fault_sequences', 'crash_points'], 'arbitrary bytes, bit flips, block swaps, zeroed ranges and truncation at any point of valid inputs',
	'Tests contain a few specific broken samples.',
	[M, A, L, S, F, X, U, 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/PartitionTable.py', 'dfir_ntfs/WSL.py', 'dfir_ntfs/BootSector.py'], [('validation and loop tracking', 'all parsers')])

prop('C27', 'NTFS report tool output agrees with the evidence',
	'Each mode of the NTFS command-line tool writes a complete report in which every row or block corresponds to exactly one item of the input (file record and name, index entry, slack name, journal record, log record, moved object, carved timestamp set) and carries its exact values, paths and timestamps, in input order. Names with any characters are written losslessly as far as they are valid text, absent values are shown as absent, and shadow copies are covered when all file tables are requested.',
	['inputs'], 'every file table, journal, log, index, shadow copy set and tracking log',
	'The tests never run the command-line tools.',
	['ntfs_parser'], [('report modes', 'ntfs_parser process_mft, process_usn, process_log, process_indx, process_all_mft, process_mem, process_movetable')])

prop('C28', 'FAT report tool output agrees with the volume',
	'For every FAT12/16/32 or exFAT volume at any offset, the FAT command-line tool picks the right file system and writes one row per entry found by walking it, with exact state, path, timestamps, time zones, size, encryption flag and short name, and marks the volume label and partial names as such.',
	['inputs'], 'every FAT and exFAT volume and image offset',
	'The tests never run the command-line tools.',
	['fat_parser'], [('report', 'fat_parser')])

prop('C29', 'A mounted shadow copy is read-only and shows exactly the snapshot',
	'The mount tool exposes one file whose size is the snapshot size and whose bytes, for any sequence of reads at any offsets and sizes, are exactly those of the selected snapshot (single or two-volume); the alternate fill option changes only blocks that are untracked or unchanged. Every attempt to write, create, rename, delete or change anything is refused as read-only and changes nothing; the listing mode prints exactly the snapshots present, or that there are none.',
	['inputs', 'histories'], 'every volume, snapshot, and sequence of file system requests',
	'The tests never run the mount tool.',
	['vsc_mount', S], [('file system operations', 'vsc_mount VSCFS/VSCFS2'), ('listing', 'vsc_mount --list')])

prop('C30', 'Extended attributes and Linux (WSL) metadata decode exactly',
	'Every list of extended attributes stored in a file is decoded to exactly its names, flags and values in order, stopping at the documented end; Linux metadata stored in them decodes to exact mode, owner, device numbers and access/modification/change times, and every packed Linux extended attribute to its exact name and value. Truncated or invalid lists yield only the complete leading items or the documented error.',
	['inputs'], 'every list of extended attributes, names, values and truncation points',
	'Tests decode a few samples.',
	[A, 'dfir_ntfs/WSL.py'], [('extended attributes', A + ' EA.data_parsed'), ('Linux metadata', 'dfir_ntfs/WSL.py LXATTRB, LXXATTR')])

prop('C31', 'Memory carving reports every file control block with its exact times',
	'Scanning a raw memory image that holds enough file control blocks of one layout reports each of them once, in order, with its exact file reference and five timestamps, whatever field offsets that layout uses and wherever the blocks lie within pages, and reports nothing from pages without such blocks. Images with too few or inconsistent blocks are refused with the documented error.',
	['inputs', 'configurations'], 'every layout of the carved fields, placement of blocks and surrounding memory contents',
	'Tests carve one sample.',
	[M], [('carver', M + ' MetadataCarver.carve_fcb_timestamps')])

prop('C32', 'Printed summaries show each decoded field exactly',
	'The printed summary of every attribute value and of Linux metadata shows each field once, in a fixed order, under its own label and with its exact decoded value, and shows an absent field as absent. Attribute types and the FAT and exFAT file attribute flags are named completely and exactly: each set flag once, no unset flag, and unknown attribute types by their number.',
	['inputs'], 'every value of every printed field and every combination of flags',
	'Tests never look at printed output.',
	[A, M, 'dfir_ntfs/WSL.py', F, X], [('summaries', A + ' print_information'), ('attribute names', M + ' ResolveAttributeType'), ('flag names', A + ', ' + F + ', ' + X + ' ResolveFileAttributes')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
	for p in P:
		f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
