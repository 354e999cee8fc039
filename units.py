"""Proof units: which harness, which sources of /repo, which contracts."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

class Unit:
    def __init__(s, name, props, entry, harness, srcs, what, kind='proof', extra=(), nextra=(), defs=(), unwind=17,
                 unwindset=(), bunwind=None, bunwindset=(), flags=(), solver='cadical', split=False, timeout=300,
                 enforce=(), replace=(), loops=False, loopflags=(), bnd=24, replay=True, tier='quick', funcs=(),
                 trusted=(), bound='', weight=1, srcdefs=None, nbnd=None, count=4000, twin=None, objbits=8, trace=True, srccalls=None):
        s.name, s.props, s.entry, s.harness, s.srcs, s.what, s.kind = name, props.split(), entry, harness, list(srcs), what, kind
        s.extra, s.nextra, s.defs, s.unwind, s.unwindset = list(extra), list(nextra), list(defs), unwind, list(unwindset)
        s.bunwind, s.bunwindset = bunwind, list(bunwindset)
        s.flags, s.solver, s.split, s.timeout, s.enforce, s.replace = list(flags), solver, split, timeout, list(enforce), list(replace)
        s.loops, s.loopflags, s.bnd, s.replay, s.tier, s.funcs, s.trusted = loops, list(loopflags), bnd, replay, tier, list(funcs), list(trusted)
        s.bound, s.weight = bound, weight
        s.srcdefs, s.nbnd, s.count, s.twin, s.objbits, s.trace = srcdefs or {}, nbnd or bnd, count, twin, objbits, trace
        s.srccalls = srccalls or {}

UNITS = []
def unit(*a, **k):
    u = Unit(*a, **k); assert u.name not in [x.name for x in UNITS], u.name
    UNITS.append(u); return u

TRUSTED = [
    'cbmc 6.11.0, goto-cc, goto-instrument and the SAT/SMT back end named per unit',
    'machine arithmetic as compiled: two-complement wrap-around, arithmetic right shift (signed-overflow and shift obligations off)',
    'NDEBUG configuration, as the library is shipped; SSE2 builtins by the bodies in harness/sse_model.c',
]
ASSUME = {}
LEVELS = {}
NOTES = {}
TECH = {}
HOOKS = dict(guard='PB_VERIFY', enable='-DPB_VERIFY -I/verif/harness (harness/pb_verify.h gives the loop contracts and ghost steps)', source_commits=['21a3c1c', 'aec7d53', '6ba83aa', '081073d', '99f32a9', '5dbfdad'])
NA = {
    'C22': 'the generator is C++ over the libprotoc API (std::string, iostream, protobuf descriptors): no installed deductive verifier handles it (the C++ front end of cbmc rejects these headers), and its output quantifies over programs',
}

def known_findings(prop):
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    return out

def native_extra(prop, tier, seed): return None

V = ['src/core/varint.c']
SSE = ['sse_model.c']

# ---------------------------------------------------------------- C01, C02
LEVELS['C01'] = LEVELS['C02'] = 'proof'
for t in ('int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'enum'):
    f = {'bool': 'uint8', 'enum': 'int32'}.get(t, t)
    unit('encode_' + t, 'C01', 'h_encode_' + t, 'varint.c', V, 'pack/size of every %s value is canonical, frame respected' % t,
         extra=SSE, funcs=['pb_varint_pack_' + f, 'pb_varint_size_' + f])
    unit('round_' + t, 'C01', 'h_round_' + t, 'varint.c', V, 'unpack(pack(v)) = v for every %s value' % t,
         extra=SSE, funcs=['pb_varint_pack_' + f, 'pb_varint_unpack_' + f])
    unit('decode_' + t, 'C02', 'h_decode_' + t, 'varint.c', V, 'unpack of any bytes: in bounds, accepts/rejects exactly, value', bnd=20, bunwind=21,
         extra=SSE, funcs=['pb_varint_unpack_' + f])
unit('scan', 'C02', 'h_scan', 'varint.c', V, 'scan of any bytes: in bounds, finds exactly the varint end', bnd=20, bunwind=21,
     extra=SSE, funcs=['pb_varint_scan'])

# ---------------------------------------------------------------- C03
LEVELS['C03'] = 'proof'
ST = ['src/core/stream.c', 'src/core/varint.c', 'src/core/buffer.c', 'src/core/allocator.c']
for t in ('int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'enum', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64',
          'float', 'double', 'string', 'bytes', 'message'):
    k = 'read_varint' if t in ('int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'enum') else \
        'read_length' if t in ('string', 'bytes', 'message') else 'read_64bit' if '64' in t or t == 'double' else 'read_32bit'
    unit('read_' + t, 'C03', 'h_read_' + t, 'stream.c', ST, 'reading a %s at any position of any buffer' % t, extra=SSE, bnd=20, bunwind=21,
         funcs=['pb_stream_read', k, 'pb_stream_advance'])
unit('skip', 'C03', 'h_skip', 'stream.c', ST, 'skipping any wiretype at any position of any buffer', extra=SSE, bnd=20, bunwind=21,
     funcs=['pb_stream_skip', 'skip_varint', 'skip_64bit', 'skip_length', 'skip_32bit', 'pb_varint_scan'])
unit('advance', 'C03', 'h_advance', 'stream.c', ST, 'advancing by any amount', extra=SSE, bnd=20, bunwind=21, funcs=['pb_stream_advance'])

# ---------------------------------------------------------------- C07
LEVELS['C07'] = 'proof'
MB = ['src/message/buffer.c', 'src/core/buffer.c', 'src/core/allocator.c']
LIBC = ['memcpy, memmove: contracts over two arbitrary (ghost) byte positions, harness/ghost.h', 'allocator callbacks: contract of an arbitrary, possibly failing allocator, harness/ghost.h']
for c in ('GROW', 'SHRINK', 'SAME'):
    unit('buffer_write_' + c.lower(), 'C07', 'h_write', 'buffer.c', MB, 'pb_buffer_write is an exact splice for every size, range and allocator outcome (%s)' % c.lower(),
         defs=['CASE_' + c], split=True, bnd=5, bunwind=16, timeout=400, funcs=['pb_buffer_write'], trusted=LIBC)
unit('buffer_clear', 'C07', 'h_clear', 'buffer.c', MB, 'pb_buffer_clear is an exact splice for every size and range', split=True, bnd=6, bunwind=19, timeout=400, funcs=['pb_buffer_clear'], trusted=LIBC)
unit('buffer_invalid', 'C07', 'h_write_invalid', 'buffer.c', MB, 'invalid buffers are refused', funcs=['pb_buffer_write', 'pb_buffer_clear'])

# ---------------------------------------------------------------- C09
LEVELS['C09'] = 'proof'
MJ = ['src/message/journal.c'] + MB
for c in ('write', 'clear'):
    unit('journal_' + c, 'C09', 'h_j' + c, 'journal.c', MJ, 'pb_journal_%s splices and logs, or changes nothing, for every journal, range and allocator outcome' % c,
         split=True, bnd=4, unwind=7, bunwind=120, timeout=400, funcs=['pb_journal_' + c, 'push', 'pop', 'pb_buffer_' + c], trusted=LIBC)
unit('journal_destroy', 'C09', 'h_jdestroy', 'journal.c', MJ, 'destroying returns every block once', bnd=4, unwind=7, bunwind=120, funcs=['pb_journal_destroy', 'pb_buffer_destroy'], trusted=LIBC)
unit('journal_invalid', 'C09 C25', 'h_jinvalid', 'journal.c', MJ, 'invalid journals are refused without effect', bnd=4, unwind=7, bunwind=120, funcs=['pb_journal_write', 'pb_journal_clear', 'pb_journal_align', 'pb_journal_destroy'])

# ---------------------------------------------------------------- C08
LEVELS['C08'] = 'proof'
CB = ['src/core/buffer.c', 'src/core/allocator.c']
unit('buffer_create', 'C08', 'h_create', 'corebuf.c', CB, 'creating copies every byte of any size, or fails cleanly', bnd=6, bunwind=20,
     funcs=['pb_buffer_create_with_allocator', 'pb_buffer_destroy'], trusted=LIBC)
unit('buffer_grow', 'C08 C06', 'h_grow', 'corebuf.c', CB, 'growing keeps every byte of any buffer and yields the room, or changes nothing', bnd=6, bunwind=20, split=True,
     funcs=['pb_buffer_grow', 'pb_buffer_create_empty_with_allocator'], trusted=LIBC)
unit('buffer_zero_copy', 'C08 C23', 'h_zero_copy', 'corebuf.c', CB, 'zero-copy buffers alias, never allocate or free', bnd=6, bunwind=20,
     funcs=['pb_buffer_create_zero_copy', 'pb_buffer_grow', 'pb_buffer_destroy'])
unit('buffer_unusable', 'C08 C25', 'h_invalid', 'corebuf.c', CB, 'invalid buffers', bnd=6, bunwind=20, funcs=['pb_buffer_grow', 'pb_buffer_destroy'])
unit('buffer_default', 'C08', 'h_default', 'corebuf.c', CB, 'the default allocator, all contents of 1..4 bytes grown by 1..4', kind='bounded', bnd=4, bunwind=12, unwind=12, bound='4+4 bytes',
     funcs=['pb_buffer_create', 'pb_buffer_create_empty', 'allocator_default'], trusted=['cbmc malloc/realloc/free models'])

# ---------------------------------------------------------------- C04
LEVELS['C04'] = 'proof'
DL = ['src/core/decoder.c', 'src/core/descriptor.c', 'src/core/buffer.c', 'src/core/allocator.c']
DC = DL + ['src/core/stream.c', 'src/core/varint.c']
decoder_twin = Unit('decoder_twin', '', 'h_decode', 'decoder.c', DC, 'the decoder against a reference decoder', kind='bounded', bnd=3, nbnd=40, bunwind=12, objbits=10,
     extra=SSE, count=40000, trace=False)
unit('decoder_loop', 'C04', 'h_decode_loop', 'decoder_loop.c', DL, 'every iteration of the decoder delivers or skips exactly the record at its offset, for every buffer, field, read outcome and handler outcome',
     loops=True, unwind=9, objbits=10, twin=decoder_twin, timeout=500, srcdefs={'src/core/descriptor.c': ['pb_descriptor_field_by_tag=real_field_by_tag']},
     funcs=['pb_decoder_decode'], trusted=['stream reads and skips by their contract (C03), descriptor lookup by its contract (C16)'])
unit('decoder_invalid', 'C04 C25', 'h_decode_invalid', 'invalid.c', DC, 'invalid buffers are refused', extra=SSE, unwind=12, funcs=['pb_decoder_decode'])

# ---------------------------------------------------------------- C05, C06
LEVELS['C05'] = LEVELS['C06'] = 'proof'
EL = ['src/core/encoder.c', 'src/core/descriptor.c', 'src/core/buffer.c', 'src/core/allocator.c']
encoder_twin = Unit('encoder_twin', '', 'h_encode', 'encoder.c', EL + ['src/core/varint.c'], 'the encoder against a reference encoder', kind='bounded', trace=False, count=20000)
for t in ('INT32', 'INT64', 'UINT32', 'UINT64', 'SINT32', 'SINT64', 'BOOL', 'ENUM', 'FIXED32', 'FIXED64', 'SFIXED32', 'SFIXED64', 'FLOAT', 'DOUBLE', 'STRING', 'BYTES', 'MESSAGE'):
    for pk in (0, 1):
        if pk and t in ('STRING', 'BYTES', 'MESSAGE'): continue
        vt = t in ('INT32', 'INT64', 'UINT32', 'UINT64', 'SINT32', 'SINT64', 'BOOL', 'ENUM')
        unit('encoder_%s%s' % (t.lower(), '_packed' if pk else ''), 'C05 C06', 'h_encode_loop', 'encoder_loop.c', EL,
             'any number of %s values%s, every allocation outcome' % (t.lower(), ', packed' if pk else ''),
             defs=['TYPE=PB_TYPE_' + t, 'PK=%d' % pk], loops=True, unwind=9, objbits=10, twin=encoder_twin, timeout=500, weight=3 if vt and pk or t in ('STRING', 'BYTES', 'MESSAGE') else 1,
             srcdefs={'src/core/descriptor.c': ['pb_descriptor_field_by_tag=real_field_by_tag'], 'src/core/buffer.c': ['pb_buffer_grow=real_buffer_grow']},
             funcs=['pb_encoder_encode', 'encode', 'encode_packed' if pk else 'encode_' + ('varint' if vt else 'length' if t in ('STRING', 'BYTES', 'MESSAGE') else '64bit' if '64' in t or t == 'DOUBLE' else '32bit')],
             trusted=['varint sizes and packing by their contract (C01), buffer growth by its contract (C08), descriptor lookup by its contract (C16)', 'lengths below 2^32 bytes, at most 2^28 values per call'])
unit('encoder_invalid', 'C05 C25', 'h_encode_invalid', 'invalid.c', EL + ['src/core/decoder.c', 'src/core/stream.c', 'src/core/varint.c'], 'invalid encoders are refused', extra=SSE, unwind=12, funcs=['pb_encoder_encode', 'pb_encoder_destroy'])

# ---------------------------------------------------------------- C16, C17
LEVELS['C16'] = LEVELS['C17'] = 'proof'
DE = ['src/core/descriptor.c']; DU = ['src/util/descriptor.c']
lookup_twin = Unit('lookup_twin', '', 'h_lookup', 'lookup.c', DE + DU, 'lookups against a linear search', kind='bounded', bnd=30, trace=False, count=8000)
unit('by_tag', 'C16 C17', 'h_by_tag', 'desc.c', DE, 'a field is found by its tag in a table of any size, or looked for in the extensions', loops=True, unwind=9, twin=lookup_twin,
     srcdefs={DE[0]: ['PB_VERIFY_REST']}, srccalls={DE[0]: ['pb_descriptor_field_by_tag:rest_call']}, funcs=['pb_descriptor_field_by_tag'],
     trusted=['descriptor tables are sorted by tag and number, without duplicate tags, as generated'])
unit('by_number', 'C16', 'h_by_number', 'desc.c', DE, 'an enum value is found by its number in a table of any size, negative and aliased numbers included', loops=True, unwind=9, twin=lookup_twin,
     srcdefs={DE[0]: ['PB_VERIFY_REST']}, funcs=['pb_enum_descriptor_value_by_number'])
unit('by_name', 'C16', 'h_by_name', 'desc.c', DU, 'a field is found by its name in a table of any size, or looked for in the extensions', loops=True, unwind=9, twin=lookup_twin,
     srcdefs={DU[0]: ['PB_VERIFY_NAMES', 'strcmp=name_cmp']}, srccalls={DU[0]: ['pb_descriptor_field_by_name:rest_name_call']}, funcs=['pb_descriptor_field_by_name'], trusted=['strcmp'])
unit('enum_by_name', 'C16', 'h_enum_by_name', 'desc.c', DU, 'an enum value is found by its name in a table of any size', loops=True, unwind=9, twin=lookup_twin,
     srcdefs={DU[0]: ['PB_VERIFY_NAMES', 'strcmp=name_cmp']}, funcs=['pb_enum_descriptor_value_by_name'], trusted=['strcmp'])
for t, f in (('fields', 'pb_descriptor_iter'), ('enums', 'pb_enum_descriptor_iter'), ('oneof', 'pb_oneof_descriptor_iter')):
    unit('iter_' + t, 'C16', 'h_iter_' + t, 'desc.c', DE, 'every step of an iteration over a table of any size', unwind=2, bnd=24, twin=None, objbits=16,
         funcs=[f + x for x in ('_create', '_begin', '_end', '_next', '_prev', '_pos', '_current')])
unit('extend', 'C17', 'h_extend', 'extend.c', DE, 'registering an extension links it to the end of a chain of any length, once', loops=True, unwind=9, srccalls={},
     twin=Unit('extends_twin', '', 'h_extends', 'lookup.c', DE + DU, 'registrations against a list', kind='bounded', bnd=12, trace=False, count=6000), funcs=['pb_descriptor_extend'])
unit('extends', 'C17', 'h_extends', 'lookup.c', DE + DU, 'registrations in any order, then lookups', kind='bounded', bnd=2, nbnd=12, bunwind=5, bound='2 extensions of at most 1 field, 3 registrations, every tag', funcs=['pb_descriptor_extend', 'pb_descriptor_field_by_tag'])

# ---------------------------------------------------------------- C25
MSG = ['src/message/%s.c' % x for x in ('buffer', 'common', 'cursor', 'field', 'journal', 'message', 'nested', 'oneof', 'part')] + \
      ['src/core/%s.c' % x for x in ('allocator', 'buffer', 'decoder', 'descriptor', 'encoder', 'stream', 'varint')] + ['src/util/descriptor.c']
LEVELS['C25'] = 'proof'
for e, fs in (('parts', 'pb_part_write pb_part_clear pb_part_destroy pb_part_create_from_journal'), ('messages', 'pb_message_has pb_message_match pb_message_get pb_message_put pb_message_erase pb_message_clear pb_message_create_within pb_message_create_nested pb_message_nested_has pb_message_nested_match pb_message_nested_get pb_message_nested_erase'),
    ('messages_put', 'pb_message_nested_put pb_message_create pb_message_create_from_cursor pb_message_create_from_field pb_message_destroy'),
    ('fields', 'pb_field_get pb_field_put pb_field_match pb_field_clear pb_field_create pb_field_create_without_default pb_field_create_nested pb_field_create_from_cursor pb_part_create_from_cursor pb_field_destroy'),
    ('cursors', 'pb_cursor_next pb_cursor_seek pb_cursor_match pb_cursor_get pb_cursor_put pb_cursor_erase pb_cursor_create_unsafe pb_cursor_create pb_cursor_create_nested pb_cursor_rewind pb_cursor_destroy'),
    ('oneofs', 'pb_oneof_case pb_oneof_create pb_oneof_clear pb_oneof_destroy')):
    unit('invalid_' + e, 'C25', 'h_' + e, 'handles.c', ['src/message/%s.c' % x for x in ('cursor', 'field', 'message', 'nested', 'oneof', 'part')], 'every operation on an invalid handle, whatever it contains, is refused without touching anything (%s)' % e, unwind=3, trace=False, funcs=fs.split(), defs=['NOWHERE'] if e in ('cursors', 'fields') else [],
         twin=Unit('handles_' + e, '', 'h_' + e, 'handles.c', MSG, '', trace=False))

# ---------------------------------------------------------------- executable contracts of the message layer
def runs(name, props, entry, harness, what, count, **k):
    return unit(name, props, entry, harness, k.pop('srcs', MSG), what, kind='runs', count=count, replay=True, bound='%d seeded runs' % count, **k)
runs('edits', 'C10 C11 C12 C13 C14 C15 C20 C21 C24', 'h_edits', 'message.c', 'histories of operations on generated messages against a model, byte for byte', 6000, defs=['MODE=0'], funcs=[])
runs('edits_zero', 'C12 C14 C15 C23', 'h_edits', 'message.c', 'histories on zero-copy journals', 4000, defs=['MODE=1'], funcs=[])
runs('edits_exhausted', 'C10 C12 C15 C25', 'h_edits', 'message.c', 'histories with operations during which every allocation fails', 4000, defs=['MODE=2'], funcs=[])
runs('reads', 'C13 C14 C20 C21 C24', 'h_reads', 'message.c', 'every read on generated messages', 6000, funcs=[])
runs('malformed', 'C13 C23 C24 C25', 'h_malformed', 'malformed.c', 'every read and creation on arbitrary and mutated bytes', 6000, funcs=[])
VAL = ['src/util/validator.c', 'src/core/decoder.c', 'src/core/descriptor.c', 'src/core/buffer.c', 'src/core/allocator.c', 'src/core/stream.c', 'src/core/varint.c']
runs('validate', 'C18 C24', 'h_validate', 'validate.c', 'validation of generated, mutated and truncated messages of generated schemas against a reference', 16000, srcs=VAL, funcs=['pb_validator_check', 'check', 'handler'])
runs('chunks', 'C19', 'h_chunks', 'chunks.c', 'histories of allocations, resizes and frees over a failing system allocator', 6000, srcs=['src/core/allocator.c'], funcs=['allocator_allocate', 'allocator_resize', 'allocator_free'])
for p in 'C10 C11 C12 C13 C14 C15 C18 C19 C20 C21 C23 C24'.split(): LEVELS[p] = 'exploration'; TECH[p] = 'executable contracts of the real code over seeded histories (bounded stand-in), with CBMC-proved units where listed'

# ---------------------------------------------------------------- C10: alignment
JA = ['src/message/journal.c', 'src/message/buffer.c', 'src/core/buffer.c', 'src/core/allocator.c']
for e, w in (('value', 'writing a value'), ('prefix', 'writing a length prefix'), ('insert', 'inserting a record'), ('erase', 'erasing a record'), ('erase_all', 'erasing everything'),
             ('element', 'writing a packed element'), ('append', 'appending a packed element'), ('element_erase', 'erasing a packed element'), ('packed_erase', 'erasing an emptied packed record')):
    unit('align_' + e, 'C10', 'h_' + e, 'align.c', JA, 'every handle, wherever it is in the tree, follows its bytes through ' + w, unwind=4, bnd=8, bunwind=4, count=40000, defs=['GONE'] if 'erase' in e else [], funcs=['pb_journal_align'])
unit('align_two', 'C10', 'h_two', 'align.c', JA, 'aligning over several edits is aligning over one after the other', unwind=4, bnd=8, bunwind=4, count=20000, funcs=['pb_journal_align'])

# ---------------------------------------------------------------- C13: cursors
CUR = ['src/core/descriptor.c', 'src/core/buffer.c', 'src/core/allocator.c', 'src/message/buffer.c', 'src/message/journal.c']
CURD = {'src/core/descriptor.c': ['pb_descriptor_field_by_tag=real_field_by_tag']}
READS = ['stream reads and skips by their contract (C03), descriptor lookup by its contract (C16)']
unit('cursor_next_record', 'C13 C24', 'h_next', 'cursor.c', CUR, 'advancing skips exactly the records that are not looked for, in any message', loops=True, unwind=9, objbits=10, replay=False, srcdefs=CURD, extra=['cursor_wrap.c'], funcs=['next'], trusted=READS, timeout=500)
unit('cursor_next_packed', 'C13 C24', 'h_next_packed', 'cursor.c', CUR, 'advancing inside a packed record visits exactly its next element', unwind=3, defs=['PB_VERIFY'], objbits=10, replay=False, srcdefs=CURD, extra=['cursor_wrap.c'], funcs=['next_packed'], trusted=READS)

# sequences of records
PARTC = os.path.join(HERE, 'harness', 'part_calls.c')
SEQ = ['src/message/%s.c' % x for x in ('cursor', 'message', 'oneof', 'field', 'common')] + ['src/core/descriptor.c', 'src/core/varint.c', PARTC]
SEQD = {'src/core/descriptor.c': ['pb_descriptor_field_by_tag=real_field_by_tag'],
        'src/message/cursor.c': ['PB_VERIFY_CALLS', 'pb_cursor_next=real_next', 'pb_cursor_erase=real_erase'],
        'src/message/field.c': ['pb_field_create_from_cursor=real_from_cursor', 'pb_field_match=real_match']}
SEQR = {'src/message/cursor.c': ['next:call_rec', 'next_packed:call_packed']}
SEQC = {'src/message/cursor.c': ['real_next:call_next'], PARTC: ['init:call_init']}
for n, e, p, w, f in (('cursor_create', 'h_create', 'C13 C14 C20 C24', 'a cursor on a tag is on the first record of a repeated field and on the last of any other unless it is hidden, in any sequence of records', 'pb_cursor_create'),
    ('oneof_case', 'h_case', 'C14 C24', 'the case of a oneof is the tag of its last member, in any sequence of records', 'pb_oneof_case'),
    ('oneof_clear', 'h_clear', 'C14 C15', 'clearing a oneof erases every member and nothing else, in any sequence of records', 'pb_oneof_clear'),
    ('message_erase', 'h_erase', 'C12 C14 C15', 'erasing erases every record of the field, for a member of a oneof every member, and nothing else, in any sequence of records', 'pb_message_erase'),
    ('part_create', 'h_place', 'C12 C14 C15', 'a value is put in the last record of its field or in a new record between others, and other members of its oneof are erased, in any sequence of records', 'pb_part_create'),
    ('cursor_seek', 'h_seek', 'C13 C21 C24', 'seeking stops at the next record that matches, in any sequence of records', 'pb_cursor_seek'),
    ('cursor_next', 'h_advance', 'C13 C24', 'advancing stops at the first record or element and counts it', 'pb_cursor_next')):
    unit(n, p, e, 'sequence.c', SEQ, w, loops=True, unwind=9, objbits=10, replay=False, srcdefs=SEQD, srccalls=SEQC if e != 'h_advance' else SEQR, funcs=f.split(), timeout=500,
         trusted=['advancing a cursor by its contract (cursor_next_record, cursor_next_packed), alignment by its contract (C10), erasing a record by its contract (runs)'])

# values
FIELDC = os.path.join(HERE, 'harness', 'field_calls.c'); MESSAGEC = os.path.join(HERE, 'harness', 'message_calls.c')
VD = {'src/core/descriptor.c': ['pb_descriptor_field_by_tag=real_field_by_tag']}
def value(n, e, p, w, f, srcs, **k):
    unit(n, p, e, 'values.c', srcs + ['src/core/descriptor.c'], w, unwind=17, objbits=10, replay=False, funcs=f.split(), trusted=['stream reads (C03), varint packing (C01), alignment (C10), part creation (part_create) and writing by their contracts'],
         srcdefs=dict(VD, **k.pop('defs', {})), **k)
FP = {FIELDC: ['memcmp=vf_memcmp']}; PH = [os.path.join(HERE, 'harness', 'part_stub.c')]
value('field_get', 'h_get', 'C11 C20 C21 C24', 'the value of a field of any type is what is encoded at its place', 'pb_field_get', [FIELDC] + PH, defs=FP)
value('field_match', 'h_match', 'C21 C24', 'values match if and only if they are equal, for every type and value', 'pb_field_match pb_string_equals', [FIELDC] + PH, defs=FP)
value('field_put', 'h_put', 'C11 C12', 'a put writes exactly the encoding of its value, for every type and value', 'pb_field_put', [FIELDC] + PH, defs=FP)
value('field_create', 'h_create', 'C11 C12', 'creating a field that is not there puts its default', 'pb_field_create pb_field_create_without_default', [FIELDC] + PH, defs=FP, srccalls={FIELDC: ['pb_field_put:call_put']})
value('message_get', 'h_mget', 'C20 C24', 'reading a field is reading its record or its default', 'pb_message_get', ['src/message/message.c'] + PH)
value('message_has', 'h_mhas', 'C20 C21 C24', 'a field is there, and matches, if a record does', 'pb_message_has pb_message_match', ['src/message/message.c'] + PH)
NR = ['cursors and messages of one level by their contracts (cursor_create, message_get, message_has, message_erase)']
NEST = ['src/message/nested.c', 'src/core/descriptor.c'] + PH
for n, e, w, f in (('read', 'h_nested_read', 'presence and matching along a branch of any length', 'pb_message_nested_has pb_message_nested_match resolve'), ('get', 'h_nested_get', 'reading along a branch of any length', 'pb_message_nested_get resolve'),
                   ('erase', 'h_nested_erase', 'erasing along a branch of any length', 'pb_message_nested_erase resolve')):
    unit('nested_' + n, 'C20' if n == 'erase' else 'C20 C24' if n == 'get' else 'C20 C21 C24', e, 'nested.c', NEST, w, loops=True, unwind=9, objbits=10, replay=False, funcs=f.split(), trusted=NR)
unit('nested_create', 'C15 C20', 'h_nested_create', 'nested.c', [MESSAGEC, 'src/core/descriptor.c'] + PH, 'creating along a branch of any length', loops=True, unwind=9, objbits=10, replay=False, defs=['REAL_MESSAGE'],
     funcs=['pb_message_create_nested'], srcdefs={MESSAGEC: ['pb_message_create_from_cursor=real_from_cursor']}, srccalls={MESSAGEC: ['pb_message_create_within:call_within']}, trusted=['creating a message of one level by its contract (part_create)'])

# levels of nesting
EDITC = os.path.join(HERE, 'harness', 'part_edit.c')
unit('edit_level', 'C11 C12 C15', 'h_level', 'level.c', [EDITC], 'after an edit the length prefix of what contains it is made right, in any sequence of records at any depth', loops=True, unwind=9, objbits=10, replay=False,
     funcs=['adjust_recursive'], srccalls={EDITC: ['adjust_recursive:call_below', 'adjust_prefix:call_prefix', 'pb_stream_read:call_read', 'pb_stream_skip:call_skip']}, timeout=500, trusted=['stream reads (C03), alignment (C10), removing bytes (C08), the levels below (by induction) and writing one prefix (edit_prefix) by their contracts'])

CALLS = {EDITC: ['adjust_recursive:call_below', 'adjust_prefix:call_prefix', 'adjust:call_adjust', 'pb_stream_read:call_read', 'pb_stream_skip:call_skip']}
for n, e, w, f in (('prefix', 'h_prefix', 'a length prefix is made the canonical encoding of the size of its part', 'adjust_prefix'), ('write', 'h_write', 'a write replaces exactly the contents of its part and tells the levels above', 'pb_part_write'),
                   ('clear', 'h_clear', 'an erasure removes exactly its record or element and tells the levels above', 'pb_part_clear'), ('init', 'h_init', 'a new record is inserted with its tag and tells the levels above', 'init'),
                   ('adjust', 'h_adjust', 'the levels are followed from the start of the buffer', 'adjust')):
    unit('edit_' + n, 'C11 C12 C15', e, 'edit.c', [EDITC, 'src/core/varint.c'], w, unwind=13, objbits=10, replay=False, funcs=[f], srccalls=CALLS, trusted=['splicing (C09), alignment (C10) and the levels (edit_level) by their contracts'])

# operations that pass on to others
for n, p, e, src, w, f in (('cursor_match', 'C21 C24', 'h_cmatch', 'cursor', 'matching at a cursor matches its field', 'pb_cursor_match'), ('cursor_get', 'C11 C20 C24', 'h_cget', 'cursor', 'reading at a cursor reads its field', 'pb_cursor_get'),
    ('cursor_put', 'C11', 'h_cput', 'cursor', 'putting at a cursor puts to its record, of any type', 'pb_cursor_put'), ('cursor_erase', 'C12 C14 C15', 'h_cerase', 'cursor', 'erasing at a cursor erases its record, of any type', 'pb_cursor_erase'),
    ('cursor_align', 'C10 C13 C24 C25', 'h_calign', 'cursor', 'aligning a cursor aligns all it points to', 'pb_cursor_align'),
    ('message_put', 'C11 C15', 'h_mput', 'message', 'putting to a message puts to the record of the tag, of any type', 'pb_message_put'), ('message_clear', 'C12 C15', 'h_mclear', 'message', 'clearing a message erases its record', 'pb_message_clear'),
    ('message_cursor', 'C15 C20 C24', 'h_mcursor', 'message', 'the message at a cursor is its record', 'pb_message_create_from_cursor'),
    ('part_cursor', 'C11 C12 C25', 'h_pcursor', 'part', 'the part at a cursor is its record, aligned', 'pb_part_create_from_cursor')):
    unit('op_' + n, p, e, 'ops.c', ['src/message/%s.c' % src, 'src/core/descriptor.c'], w, unwind=9, objbits=10, replay=False, defs=['OF_' + src.upper()], srcdefs=VD, funcs=[f], trusted=['what is passed on to, by its contract'])

OPSC = os.path.join(HERE, 'harness', 'op_calls.c')
for n, p, e, src, w, f in (('message_create', 'C10 C23', 'h_mcreate', 'message', 'a message is the whole of its journal', 'pb_message_create'), ('part_journal', 'C10 C23 C25', 'h_pjournal', 'part', 'a part made from a journal is all of it, as it is now', 'pb_part_create_from_journal'),
    ('message_within', 'C12 C15 C25', 'h_mwithin', 'message', 'a message within another is the record of its tag', 'pb_message_create_within'), ('message_field', 'C10 C24 C25', 'h_mfield', 'message', 'a message made from a field is its contents, aligned, or invalid', 'pb_message_create_from_field'),
    ('field_cursor', 'C10 C11', 'h_fcursor', 'field', 'the field at a cursor is its record or element', 'pb_field_create_from_cursor'), ('field_clear', 'C12 C15', 'h_fclear', 'field', 'clearing a field erases its record', 'pb_field_clear'),
    ('field_nested', 'C20', 'h_fnested', 'field', 'a field along a branch is the field of the last message', 'pb_field_create_nested'), ('cursor_nested', 'C13 C20', 'h_cnested', 'cursor', 'a cursor along a branch is the cursor on the last message', 'pb_cursor_create_nested'),
    ('cursor_rewind', 'C13 C24', 'h_crewind', 'cursor', 'rewinding starts over', 'pb_cursor_rewind'), ('nested_put', 'C20', 'h_nput', 'nested', 'putting along a branch puts to the last message', 'pb_message_nested_put'),
    ('oneof_create', 'C14', 'h_ocreate', 'oneof', 'a oneof is looked for in the whole message', 'pb_oneof_create')):
    unit('op_' + n, p, e, 'ops.c', [OPSC if src in ('field', 'cursor') else 'src/message/%s.c' % src, 'src/core/descriptor.c'], w, unwind=9, objbits=10, replay=False, defs=['OF_' + src.upper()], srcdefs=VD, funcs=[f],
         srccalls={OPSC: {'h_fnested': ['pb_field_create:call_field_create'], 'h_cnested': ['pb_cursor_create:call_cursor_create'], 'h_crewind': ['pb_cursor_create_unsafe:call_cursor_unsafe']}[e]} if e in ('h_fnested', 'h_cnested', 'h_crewind') else {}, trusted=['what is passed on to, by its contract'])

# validator
VALC = os.path.join(HERE, 'harness', 'validator_edit.c')
for n, e, w, f in (('absent', 'h_absent', 'a message of which a required field does not occur is rejected', 'check'), ('present', 'h_present', 'a message of which every required field occurs is accepted', 'check'),
                   ('record', 'h_record', 'the tag of every field that occurs is recorded, once; submessages are checked', 'handler'), ('top', 'h_top', 'the outcome is that of the message', 'pb_validator_check')):
    unit('required_' + n, 'C18 C24', e, 'required.c', [VALC, 'src/core/descriptor.c'] + (['src/core/buffer.c', 'src/core/decoder.c'] if n == 'top' else []), w, loops=True, unwind=9, objbits=10, replay=False, funcs=[f],
         srccalls={VALC: ['check:call_check']} if n in ('record', 'top') else {}, trusted=['decoding calls back for every field that occurs (C04); checking a submessage is checking a message (induction over depth); there are no more distinct tags than fields'])

# chunk allocator
CHKC = os.path.join(HERE, 'harness', 'chunk_edit.c')
for n, w, f in (('allocate', 'a block gets a new chunk with room for it, after the last of any list', 'allocator_allocate'), ('resize', 'a block grows in its chunk, wherever in any list it is, and failing to changes nothing', 'allocator_resize'),
                ('free', 'a block that is freed gives back its chunk and no other, wherever in any list it is', 'allocator_free'), ('destroy', 'destroying frees every chunk of any list once', 'pb_chunk_allocator_destroy'),
                ('create', 'creating gives an empty list, or reports failure', 'pb_chunk_allocator_create pb_chunk_allocator_create_with_capacity')):
    unit('chunk_' + n, 'C19', 'h_' + n, 'chunk.c', [CHKC], w, loops=True, unwind=9, objbits=10, replay=False, funcs=f.split(), trusted=['malloc, realloc and free'])
    if n in ('allocate', 'resize'): unit('chunk_%s_room' % n, 'C19', 'h_' + n, 'chunk.c', [CHKC], 'a chunk has room for its block, for every size and capacity', loops=True, unwind=9, objbits=10, replay=False, defs=['ROOM'], solver='cvc5-int', funcs=f.split())

# levels: proof where every function the property is about is under contract,
# and the step from those contracts to the property is an induction done by
# hand, stated in the note (and in DESIGN.md)
BYHAND = {
    'C10': 'alignment over one edit for every kind of edit and handle, and over two edits as over one then the other, are proved; the induction over the log and the claim that edits have one of the proved shapes (edit_*, C11) are by hand',
    'C11': 'writing, erasing, creating a record, writing a prefix and the step from one level to the next are proved; the induction over depth and the chain from the public operation through those contracts are by hand',
    'C13': 'one step over the records of any message, over the elements of any packed record, and the visiting loops over any sequence of records are proved; that the byte-level step implements the sequence-level one is by hand; editing while visiting by cursor_* contracts with align_* (C10)',
    'C14': 'the visible occurrence, the case and the removal of the other members are proved over any sequence of records; that sequence stands for bytes by the cursor contract (C13), by hand',
    'C15': 'erasing is proved over any sequence of records and, per record, to be exactly its bytes with the prefixes above; composition by hand',
    'C18': 'one level is proved for any descriptor; decoding calls back by the contract of C04, depth by induction and at most as many distinct tags as fields, by hand',
    'C19': 'each operation is proved over any finite list of chunks; that lists are finite and acyclic is assumed (kept by allocate and create, by hand)',
    'C20': 'presence, reading and defaults are proved over the record contracts (C13, C14), and along a branch of any length; composition by hand',
    'C21': 'comparison of values of every type and size, and matching over the record contracts, are proved; composition by hand'}
for p, w in BYHAND.items():
    LEVELS[p] = 'proof'
    TECH[p] = 'contract-based deductive verification of the real C code (CBMC contracts and loop invariants, unbounded; composition of the contracts by hand), with the contracts also executed over seeded histories to find failing inputs'
    n = [sum(u.kind == 'proof' and p in u.props for u in UNITS), sum(u.kind != 'proof' and p in u.props for u in UNITS)]
    NOTES[p] = '%d units proved for all inputs; %d bounded or seeded units, never counted as proved. %s. Trusted: %s' % (n[0], n[1], w, '; '.join(TRUSTED))
for p in ('C12', 'C23', 'C24'):
    n = [sum(u.kind == 'proof' and p in u.props for u in UNITS), sum(u.kind != 'proof' and p in u.props for u in UNITS)]
    NOTES[p] = '%d units proved for all inputs; %d bounded or seeded units. The whole property is decided by executable contracts over seeded histories; the proved units cover the functions listed in the evidence%s. Trusted: %s' % (n[0], n[1],
        ' (not proved as a whole because of the recorded finding: a put failing between two of its journal edits)' if p == 'C12' else '', '; '.join(TRUSTED))
