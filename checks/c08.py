"""C08: metadata attribute values and the boot sector."""
import struct, uuid, io, contextlib
from checks import Test
from vlib.engine import *
from vlib import ntfs
from vlib.ntfs import time_ok
from dfir_ntfs import Attributes, BootSector, MFT

RULE = ('A case packs one structure with generated field values (boundary-biased, signs, non-BMP and broken text, short variants) and compares every accessor with the packed value. Non-trivial: at least one '
	'field is neither zero nor all-ones. Distinct by structure bytes.')

FLAGS = {0x1: 'READ_ONLY', 0x2: 'HIDDEN', 0x4: 'SYSTEM', 0x10: 'DIRECTORY', 0x20: 'ARCHIVE', 0x40: 'DEVICE', 0x80: 'NORMAL', 0x100: 'TEMPORARY', 0x200: 'SPARSE', 0x400: 'REPARSE_POINT',
	0x800: 'COMPRESSED', 0x1000: 'OFFLINE', 0x2000: 'NOT_CONTENT_INDEXED', 0x4000: 'ENCRYPTED', 0x8000: 'INTEGRITY_STREAM', 0x10000: 'VIRTUAL', 0x20000: 'NO_SCRUB_DATA', 0x40000: 'RECALL_ON_OPEN',
	0x80000: 'PINNED', 0x100000: 'UNPINNED', 0x400000: 'RECALL_ON_DATA_ACCESS'}


def times(d):
	return [ntfs.gen_ft(d) for _ in range(4)]


def cmp_times(obj, vals, what):
	for name, v in zip(('ctime', 'mtime', 'etime', 'atime'), vals):
		got = getattr(obj, 'get_' + name)()
		check(time_ok(got, v), '%s %s: got %r for %d', what, name, got, v)


def quiet_print(obj):
	out = io.StringIO()
	with contextlib.redirect_stdout(out):
		obj.print_information()
	return out.getvalue()


def t_si(d, r):
	t = times(d)
	w = [d.u(32) for _ in range(6)]
	quota, usn = d.u(64), d.u(64)
	length = d.pick((72, 72, 48, 56, 64, 71, 52))
	raw = ntfs.si_value(*t, *w, quota, usn, length=length)
	si = Attributes.StandardInformation(bytearray(raw) if d.bool() else raw)
	cmp_times(si, t, 'standard information')
	eq(si.get_file_attributes(), w[0], 'file attributes')
	eq(si.get_maximum_versions(), w[1], 'maximum versions')
	eq(si.get_version_number(), w[2], 'version number')
	eq(si.get_extra_flags(), w[2], 'extra flags')
	eq(bool(si.is_case_sensitive()), bool(w[2] & 1), 'case sensitivity')
	eq(si.get_storage_reserve_id(), (w[2] >> 8) & 15, 'storage reserve')
	eq(si.get_known_folder_information(), (w[2] >> 1) & 7, 'known folder')
	eq(si.get_trust_level(), (w[2] >> 4) & 3, 'trust level')
	eq(si.get_class_id(), w[3], 'class')
	eq(si.get_owner_id(), w[4] if length >= 52 else None, 'owner')
	eq(si.get_security_id(), w[5] if length >= 56 else None, 'security identifier')
	eq(si.get_quota_charged(), quota if length >= 64 else None, 'quota')
	eq(si.get_usn(), usn if length >= 72 else None, 'USN')
	check(str(hex(w[0])) in quiet_print(si), 'printed attributes')
	# Partial values (as logged).
	off = d.pick((0, 8, 16, 24, 32, d.int(0, 40)))
	n = d.int(0, 48)
	part = raw[off:off + n]
	p = Attributes.StandardInformationPartial(part, off)
	for i, name in enumerate(('ctime', 'mtime', 'etime', 'atime')):
		got = getattr(p, 'get_' + name)()
		if off <= i * 8 and off + len(part) >= i * 8 + 8:
			check(time_ok(got, t[i]), 'partial %s (offset %d, length %d): got %r for %d', name, off, len(part), got, t[i])
		else:
			eq(got, None, 'partial %s (offset %d, length %d)' % (name, off, len(part)))
	names = [v for k, v in sorted(FLAGS.items()) if w[0] & k]
	eq(Attributes.ResolveFileAttributes(w[0]), ' | '.join(names), 'flag names of 0x%x' % w[0])
	one = 1 << d.uni(0, 31)
	eq(Attributes.ResolveFileAttributes(one), FLAGS.get(one, ''), 'flag name of 0x%x' % one)
	r.nontrivial(raw)
	r.label('short', length < 72)
	r.sample('length %d attributes 0x%x partial %d+%d' % (length, w[0], off, n))


def t_fn(d, r):
	name = d.odd_name(0, 255) if d.chance(30) else d.odd_name(1, 30)
	if d.chance(10):
		name = name[:120] + '\ud83d'
	parent = d.u(64)
	t = times(d)
	f = ntfs.FN(parent, name, d.u(8), *t, alloc=d.int(-(1 << 63), (1 << 63) - 1), size=d.int(-(1 << 63), (1 << 63) - 1), fattr=d.u(32), ea=d.u(16), ea2=d.u(16))
	raw = f.value() + d.blob(d.pick((0, 0, 6)))
	fn = Attributes.FileName(bytearray(raw) if d.bool() else raw)
	eq(fn.get_parent_directory(), parent, 'parent reference')
	cmp_times(fn, t, 'file name')
	eq(fn.get_allocated_length(), f.alloc, 'allocated length')
	eq(fn.get_file_size(), f.size, 'file size')
	eq(fn.get_file_attributes(), f.fattr, 'file attributes')
	eq(fn.get_packed_ea_size(), f.ea, 'packed EA size')
	eq(fn.get_unpacked_ea_size_difference(), f.ea2, 'EA size difference')
	eq(fn.get_file_name_length(), len(ntfs.u16(name)) // 2, 'name length')
	eq(fn.get_flags(), f.flags, 'name flags')
	eq(fn.get_file_name(), ntfs.text_expected(name), 'name')
	di = Attributes.DuplicatedInformation(raw, 8)
	cmp_times(di, t, 'duplicated information')
	eq((di.get_allocated_length(), di.get_file_size(), di.get_file_attributes(), di.get_packed_ea_size(), di.get_unpacked_ea_size_difference()), (f.alloc, f.size, f.fattr, f.ea, f.ea2), 'duplicated information')
	num, seq = MFT.DecodeFileRecordSegmentReference(parent)
	eq((num, seq), (parent & 0xFFFFFFFFFFFF, parent >> 48), 'decoded reference')
	eq(MFT.EncodeFileRecordSegmentReference(num, seq), parent, 'encoded reference')
	r.nontrivial(raw)
	r.sample('%r parent %x' % (name[:20], parent))


def t_small(d, r):
	k = d.uni(0, 6)
	if k == 0:
		u = uuid.UUID(bytes=d.blob(16))
		extra = d.blob(d.pick((0, 48, d.int(0, 60))))
		o = Attributes.ObjectID(bytearray(u.bytes_le + extra))
		eq(o.get_object_id(), u, 'object identifier')
		eq(bytes(o.get_extra_data()), extra, 'extra data')
		if u.version == 1:
			from datetime import datetime
			check(time_ok(o.get_timestamp(), u.time, datetime(1582, 10, 15)), 'identifier timestamp')
		else:
			eq(o.get_timestamp(), None, 'identifier timestamp')
		eq(Attributes.ObjectID(u.bytes_le[:d.uni(0, 15)]).get_object_id(), None, 'short object identifier')
		r.nontrivial('oid', u.bytes, extra)
	elif k == 1:
		name = d.odd_name(0, 32)
		eq(Attributes.VolumeName(bytearray(ntfs.u16(name))).get_name(), ntfs.text_expected(name), 'volume name')
		a, b, f = d.u(8), d.u(8), d.u(16)
		v = Attributes.VolumeInformation(ntfs.volinfo_value(a, b, f))
		eq((v.get_major_version(), v.get_minor_version(), v.get_flags()), (a, b, f), 'volume information')
		r.nontrivial('vol', name, a, b, f)
	elif k == 2:
		ents = []
		for _ in range(d.int(0, 12)):
			ents.append((d.pick((0x10, 0x30, 0x80, 0xA0, d.u(32))), d.odd_name(1, 40) if d.bool() else None, d.u(16), d.u(64), d.u(64)))
		stored = list(ents)
		raw = ntfs.attrlist_value(ents)
		al = Attributes.AttributeList(raw + d.blob(d.pick((0, 0, 5, 25))) if d.bool() else bytearray(raw))
		got = [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in al.entries()]
		ents = [(t, n and ntfs.text_expected(n), i, v, f) for t, n, i, v, f in ents]
		eq(got, ents, 'attribute list')
		if ents and ents[0][1] is None:
			size = d.u(32)
			tagged = raw[:26] + b'DC' + struct.pack('<L', size) + raw[32:]
			eq(Attributes.AttributeList(tagged).get_last_compacted_size(), size, 'last compacted size')
			got = [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in Attributes.AttributeList(tagged).entries()]
			eq(got, ents, 'attribute list with a compacted size')
			if raw[26:28] != b'DC':
				eq(Attributes.AttributeList(raw).get_last_compacted_size(), None, 'absent last compacted size')
		# An entry length with the low bits unaligned still leads to the next entry at the 8-byte boundary.
		if ents:
			out = bytearray(raw)
			pos = 0
			for t, nm, inst, vcn, rf in ents:
				ln = struct.unpack_from('<H', out, pos + 4)[0]
				real = 26 + len(ntfs.u16(nm or ''))
				struct.pack_into('<H', out, pos + 4, d.uni(max(real, ln - 7), ln))
				pos += ln
			got = [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in Attributes.AttributeList(out).entries()]
			eq(got, ents, 'attribute list with unaligned lengths')
			# The last entry is not padded.
			tlen = len(ntfs.attrlist_value([stored[-1]]))
			last = len(raw) - tlen
			real = 26 + len(ntfs.u16(stored[-1][1] or ''))
			got = [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in Attributes.AttributeList(raw[:last + real]).entries()]
			eq(got, ents, 'attribute list without padding at the end')
		r.nontrivial('al', raw)
		r.label('attrlist')
	elif k == 3:
		w = [d.u(32) for _ in range(4)]
		h = [d.u(32) for _ in range(3)]
		f = d.u(8)
		ir = Attributes.IndexRoot(struct.pack('<LLLLLLLB3s', *w, *h, f, b'\xAA\xBB\xCC'))
		eq((ir.get_indexed_attribute_type_code(), ir.get_collation_rule(), ir.get_bytes_per_index_buffer(), ir.get_blocks_per_index_buffer()), tuple(w), 'index root')
		ih = ir.get_index_header()
		eq((ih.get_first_index_entry(), ih.get_first_free_byte(), ih.get_bytes_available(), ih.get_flags()), (h[0], h[1], h[2], f), 'index header')
		r.nontrivial('ir', tuple(w), tuple(h))
	elif k == 4:
		ms = d.bool()
		tag = d.u(31) | (0x80000000 if ms else 0)
		data = d.blob(d.int(0, 200))
		extra = d.blob(d.pick((0, 0, 9)))
		g = uuid.UUID(bytes=d.blob(16))
		raw = struct.pack('<LHH', tag, len(data), d.u(16)) + (b'' if ms else g.bytes_le) + data + extra
		rp = Attributes.ReparsePoint(raw)
		eq(rp.get_reparse_tag(), tag, 'reparse tag')
		eq(bool(rp.is_reparse_tag_microsoft()), ms, 'Microsoft tag')
		eq(rp.get_reparse_data_length(), len(data), 'reparse data length')
		eq(rp.get_reparse_guid(), None if ms else g, 'reparse identifier')
		eq(bytes(rp.get_reparse_buffer()), data, 'reparse buffer')
		r.nontrivial('rp', raw)
		r.label('reparse')
	elif k == 5:
		a, b, c = d.u(16), d.u(16), d.u(32)
		e = Attributes.EAInformation(struct.pack('<HHL', a, b, c))
		eq((e.get_packed_ea_size(), e.get_need_ea_count(), e.get_unpacked_ea_size()), (a, b, c), 'EA information')
		r.nontrivial('eai', a, b, c)
	else:
		raw = d.blob(d.int(0, 64))
		for cls in (Attributes.Data, Attributes.Bitmap, Attributes.SecurityDescriptor, Attributes.LoggedUtilityStream, Attributes.GenericAttribute):
			eq(cls(raw).value, raw, 'raw value of %s' % cls.__name__)
		eq(quiet_print(Attributes.Bitmap(raw)).split(':')[-1].strip(), str(len(raw) * 8), 'printed bitmap length')
		r.nontrivial('raw', raw)
	r.sample('kind %d' % k)


def t_entry(d, r):
	"""A single index entry."""
	ref = d.u(64)
	att = d.blob(d.int(1, 120))
	flags = d.pick((0, 1, 0, 1, 0xFFFC, 0xFFFD))
	vcn = d.u(64) if flags & 1 else None
	raw = bytearray(ntfs.index_entry(ref, att, flags, vcn))
	e = Attributes.IndexEntry(raw + d.blob(d.int(0, 16)))
	eq(e.get_file_reference(), ref, 'file reference')
	eq(e.get_length(), len(raw), 'entry length')
	eq(e.get_attribute_length(), len(att), 'attribute length')
	eq(e.get_flags(), flags, 'entry flags')
	eq(bytes(e.get_attribute()), att, 'attribute')
	eq(e.get_vcn(), vcn, 'subnode')
	v2 = d.u(64) if d.bool() else None
	e = Attributes.IndexEntry(ntfs.index_end(v2))
	eq(e.get_attribute(), None, 'attribute of the end entry')
	eq(e.get_vcn(), v2, 'subnode of the end entry')
	r.nontrivial(bytes(raw), v2)
	r.sample('entry %d bytes flags %x' % (len(raw), flags))


def t_boot(d, r):
	B = BootSector.BootSectorException
	b12 = d.pick((2, 4, 8, 16, d.u(8)))
	b11 = 0 if d.chance(85) else d.u(8)
	spc = d.pick((1, 2, 8, 128, 0xF4, 0xF6, 0x81, 0xFF, 0, d.u(8)))
	total = d.u(64) if d.chance(90) else 0
	mft = d.u(64) if d.chance(90) else 0
	mirr = d.u(64) if d.chance(90) else 0
	frs = d.pick((-10, -12, 1, 2, 0, d.int(-128, 127)))
	idx = d.pick((-12, 1, 8, 0, d.int(-128, 127)))
	serial = d.u(64)
	raw = bytearray(ntfs.boot_sector(512, 8, total, mft, mirr, frs, idx, serial, bootcode=False))
	raw[11], raw[12], raw[13] = b11, b12, spc
	code = d.u(16)
	sig = d.pick((0xAA55, 0xAA55, 0, d.u(16)))
	struct.pack_into('<H', raw, 0, code)
	struct.pack_into('<H', raw, 510, sig)
	raw += d.blob(d.pick((0, 0, 512, 3584)))
	bs = BootSector.BootSector(bytes(raw))

	def one(fn, want, what):
		if want is None:
			raises(B, fn, what)
		else:
			eq(fn(), want, what)

	bps = b12 * 256 if b11 == 0 and b12 and b12 % 2 == 0 else None
	rspc = None if spc == 0 else spc if spc <= 128 else 1 << (256 - spc)
	one(bs.get_bytes_per_sector, bps, 'sector size (bytes %d, %d)' % (b11, b12))
	one(bs.get_sectors_per_cluster, rspc, 'cluster size (%d)' % spc)
	one(bs.get_total_number_of_sectors, total or None, 'total sectors')
	one(bs.get_first_mft_cluster, mft or None, 'table cluster')
	one(bs.get_first_mftmirr_cluster, mirr or None, 'mirror cluster')
	for v, fn, what in ((frs, bs.get_file_record_segment_size, 'record size'), (idx, bs.get_index_record_size, 'index record size')):
		if v < 0:
			one(fn, 1 << -v, '%s (%d)' % (what, v))
		elif v == 0 or bps is None or rspc is None:
			one(fn, None, '%s (%d)' % (what, v))
		else:
			one(fn, v * bps * rspc, '%s (%d)' % (what, v))
	eq(bs.get_serial_number(), serial, 'serial number')
	eq(bool(bs.is_boot_code_present()), code != 0 and sig == 0xAA55, 'boot code')
	eq(bytes(bs.get_signature()), b'NTFS    ', 'signature')
	bad = bytearray(raw)
	bad[3 + d.uni(0, 7)] ^= d.int(1, 255)
	raises(B, BootSector.BootSector, 'wrong signature', bytes(bad))
	raises(B, BootSector.BootSector, 'wrong size', bytes(raw[:d.pick((0, 511, 513, 100))]) if len(raw) > 513 else bytes(raw[:d.uni(0, 511)]))
	if bps and rspc:
		r.nontrivial(bytes(raw[:512]))
	r.sample('sector %s cluster %s record %d' % (bps, rspc, frs))


TESTS = [
	Test('si', t_si, 150000, shards=2, qsec=20),
	Test('fn', t_fn, 150000, shards=2, qsec=20),
	Test('small', t_small, 300000, shards=2, qsec=20),
	Test('entry', t_entry, 100000, shards=1, qsec=20),
	Test('boot', t_boot, 150000, shards=1, qsec=20),
]
