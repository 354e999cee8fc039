import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p('C01','Varint encoding is canonical and exact',
 'Packing any value of any varint-coded scalar type (int32, int64, uint32, uint64, sint32, sint64, bool, enum) writes exactly the shortest base-128 encoding the wire format prescribes for it (ZigZag for the signed variants, sign extension to ten bytes for negative int32/int64/enum), writes nothing beyond the returned size, and the precomputed size equals the written size. Unpacking what was packed returns the original value and the same size.',
 'inputs','all 2^32 or 2^64 values of each scalar type',
 'The tests pack a few boundary values per type; the size table, sign extension and ZigZag code branch on every bit length.',
 'src/core/varint.c src/core/varint.h',[('pb_varint_pack_*','src/core/varint.c'),('pb_varint_size_*','src/core/varint.c'),('pb_varint_unpack_*','src/core/varint.c')],obs=['bytes written','return value'])
p('C02','Varint reading is bounded and rejects malformed input',
 'Unpacking or scanning a varint never reads outside the given bytes, whatever they contain. It succeeds exactly when a terminating byte is found within the bytes left and within the maximum encoded length of the type, and then returns the length up to and including the terminating byte and the value those bytes denote, truncated to the type; otherwise it fails (returns zero).',
 'inputs','every byte sequence and every number of remaining bytes',
 'Tests feed a handful of well-formed varints in large buffers; truncation at each byte, over-long forms and the vectorised scan window are not enumerated.',
 'src/core/varint.c',[('pb_varint_unpack_*','src/core/varint.c'),('pb_varint_scan','src/core/varint.c')],obs=['return value','memory reads'])
p('C03','Stream reads and skips are exact, bounded and fail without effect',
 'Reading a value of any type, or skipping a value of any wire type, at any position of any buffer never touches memory outside the buffer. On success the offset moves past exactly the bytes of that value and the value delivered is the one encoded there (length-prefixed values are a view of the bytes inside the buffer); a truncated, oversized or unsupported value is refused with an error and the offset stays where it was, within the buffer.',
 'inputs','every buffer content and size, every start position, every type and wire type',
 'Tests read well-formed values; lengths running past the end, group wire types and reads at the very end are open.',
 'src/core/stream.c src/core/stream.h src/core/varint.c',[('pb_stream_read','src/core/stream.c'),('pb_stream_skip','src/core/stream.c'),('pb_stream_advance','src/core/stream.c')],
 [('offset','current position in the buffer','src/core/stream.h')],['returned error','offset','value'])
p('C04','Decoding is memory-safe and delivers exactly the known fields in order',
 'Decoding any byte sequence against any descriptor never reads outside it and calls the handler once for each encoded value of a field the descriptor (or its extensions) defines, in wire order, with that field and the value encoded there, each element of a packed field included; unknown fields are skipped. Malformed input ends decoding with an error, a handler error ends it with that very error, and no handler call follows an error.',
 'inputs histories','every byte sequence, every descriptor, every sequence of handler results',
 'Tests decode a few well-formed messages; hostile tags, lengths, packed blocks and handler errors in the middle are a space a test only samples.',
 'src/core/decoder.c include/protobluff/core/decoder.h',[('pb_decoder_decode','src/core/decoder.c'),('pb_descriptor_field_by_tag','src/core/descriptor.c')],obs=['handler calls','returned error'])
p('C05','Encoding a field appends exactly its wire representation',
 'Encoding values for a field appends to the output exactly the tag (field number and the wire type of the field) followed by the canonical encoding of the value for every value, or for a packed field one tag, one length and all elements, leaving the bytes already encoded as they were. A submessage is embedded with its exact bytes behind its exact length, and an invalid encoder is refused.',
 'inputs histories','every field type, label and number, every value and every number of values',
 'Tests compare a few fixed messages; tag sizes, length prefixes beyond 127 bytes and packed sizes vary with every input.',
 'src/core/encoder.c include/protobluff/core/encoder.h',[('pb_encoder_encode','src/core/encoder.c')],obs=['encoded buffer','returned error'])
p('C06','An allocation failure while encoding is reported and leaves a valid prefix',
 'If any allocation during encoding fails, the encoder reports the allocation error and keeps the bytes of everything encoded successfully before, with no partial field at the end of its buffer. Later calls and destruction stay safe: the buffer is freed exactly once.',
 'fault_sequences inputs','every position at which an allocation can fail, every value',
 'The tests inject one failing allocator at the first call; failures at the second or later allocation of one field are not exercised.',
 'src/core/encoder.c src/core/buffer.c',[('pb_encoder_encode','src/core/encoder.c'),('pb_buffer_grow','src/core/buffer.c')],obs=['returned error','encoded buffer','allocator calls'])
p('C07','Writing to and clearing a message buffer is an exact splice',
 'Replacing the bytes [start,end) of a buffer by n given bytes yields exactly prefix, new bytes, suffix, whatever the sizes; clearing yields prefix and suffix. An out-of-range request, a failed allocation, or a size change of a zero-copy buffer is refused with the corresponding error and leaves the size and every byte unchanged, and memory is owned, grown and released through the allocator exactly once.',
 'inputs fault_sequences','every buffer size, range, replacement size and allocator outcome',
 'Tests splice at the start, middle and end of one short buffer; the arithmetic over start, end and size is for all sizes.',
 'src/message/buffer.c src/message/buffer.h',[('pb_buffer_write','src/message/buffer.c'),('pb_buffer_clear','src/message/buffer.c')],obs=['buffer data and size','returned error','allocator calls'])
p('C08','Buffers own a copy of their data and release it once',
 'Creating a buffer copies exactly the given bytes, growing it keeps all of them and yields room for the requested number more, and destroying it returns the memory to its allocator exactly once; zero-copy buffers alias the given memory and never allocate or free. A failed allocation yields an invalid buffer (on creation) or an unchanged one (on growth).',
 'inputs fault_sequences','every size and content, every allocator outcome',
 'Tests use one ten-byte buffer and one always-failing allocator.',
 'src/core/buffer.c src/core/buffer.h src/core/allocator.c',[('pb_buffer_create_with_allocator','src/core/buffer.c'),('pb_buffer_grow','src/core/buffer.c'),('pb_buffer_destroy','src/core/buffer.c')],obs=['buffer data and size','allocator calls'])
p('C09','The journal records every size change exactly once, or changes nothing',
 'A successful journal write or clear performs the splice and appends exactly one entry with its origin, offset and size difference when the size changed, and none otherwise, keeping all earlier entries. When the range is invalid, the buffer is zero-copy, or any allocation fails, the buffer and the log of entries are exactly as before.',
 'inputs histories fault_sequences','every journal state, range, replacement and allocator outcome',
 'Tests inject a failure at one allocation of one journal; interplay of entry allocation and buffer allocation is for every size.',
 'src/message/journal.c src/message/journal.h',[('pb_journal_write','src/message/journal.c'),('pb_journal_clear','src/message/journal.c'),('pb_journal_log','src/message/journal.c')],
 [('entry','log of origin, offset and delta','src/message/journal.h')],['journal size and data','version','returned error'])
p('C10','Aligning a handle follows its bytes through every edit',
 'After any sequence of edits to a journal, aligning a handle that was created before them moves its offsets so that they delimit the same field, message or part as before, shifted and resized by exactly the edits, or marks the handle as missing when its bytes were erased. Aligning twice is the same as aligning once, and offsets never leave the journal.',
 'histories inputs','every history of edits and every handle position relative to them',
 'Tests align across one or two edits at chosen places; the case distinctions compare every pair of offsets and edit position.',
 'src/message/journal.c src/message/part.c',[('pb_journal_align','src/message/journal.c'),('pb_part_align','src/message/part.c')],[('offset','start, end and length/tag differences of a handle','src/message/part.h')],['offsets after align','decoded values'])
p('C11','Every edit keeps all enclosing length prefixes consistent',
 'After writing, creating, or clearing a field or submessage at any nesting depth, the length prefix of every enclosing submessage equals the number of bytes it contains, also when the prefix itself grows or shrinks, and the journal is again a well-formed message that differs from the old one only in the edited part.',
 'histories inputs','every message, nesting depth and size change, including those across a varint length boundary',
 'Tests edit short submessages; prefixes change size only when a content size crosses 127 or 16383 bytes, and one level can trigger the next.',
 'src/message/part.c src/message/field.c src/message/message.c',[('pb_part_write','src/message/part.c'),('pb_part_clear','src/message/part.c'),('adjust','src/message/part.c')],obs=['journal bytes','re-decoding'])
p('C12','Put then get returns the value, and other fields are untouched',
 'After successfully putting a value of any type to a field, at any nesting depth, getting that field returns the value and matching it succeeds, while every other field of the message, known or unknown, reads as before and keeps its bytes. A put that fails leaves the journal readable with its old values.',
 'inputs histories','every field type, value and message content, every order of puts',
 'Tests put single values into fixed messages; absent, present, and repeated occurrences and sizes of old and new value vary independently.',
 'src/message/message.c src/message/field.c src/message/part.c',[('pb_message_put','src/message/message.c'),('pb_message_get','src/message/message.c'),('pb_field_put','src/message/field.c'),('pb_field_get','src/message/field.c')],obs=['get results','journal bytes'])
p('C13','A cursor visits exactly the matching fields, in order',
 'Iterating a cursor over a message visits every occurrence of the requested field exactly once in wire order, each element of packed fields included, then reports the end; malformed bytes end it with an error and never a visit of bytes outside the message. Rewinding restarts it, and after erasing or rewriting the visited field the iteration continues with the next one.',
 'inputs histories','every message content, field number and sequence of next, rewind, put and erase',
 'Tests iterate over fixed well-formed messages; mixes of packed and unpacked occurrences, unknown fields and malformed tails are not enumerated.',
 'src/message/cursor.c src/message/cursor.h',[('pb_cursor_next','src/message/cursor.c'),('pb_cursor_rewind','src/message/cursor.c'),('pb_cursor_erase','src/message/cursor.c')],obs=['fields visited','error'])
p('C14','The last occurrence wins, and a oneof has one active member',
 'Reading a singular field that occurs several times yields its last occurrence. Among the members of a oneof, only the last one on the wire is visible, putting one member makes all others absent, and the reported case is the visible member.',
 'inputs histories','every order and number of occurrences, every sequence of puts',
 'Tests hold at most one occurrence of each member.',
 'src/message/cursor.c src/message/oneof.c src/message/field.c src/message/part.c',[('pb_cursor_next','src/message/cursor.c'),('pb_oneof_case','src/message/oneof.c'),('pb_part_create','src/message/part.c')],obs=['get results','oneof case'])
p('C15','Erasing removes every occurrence and nothing else',
 'After erasing a field, a oneof, or a submessage, it is absent: no occurrence of its number is left in the message, all other fields keep their bytes and order, and erasing again succeeds without change. An erase that is refused leaves the message unchanged.',
 'inputs histories','every message content, number of occurrences and nesting depth',
 'Tests erase one occurrence in fixed messages.',
 'src/message/message.c src/message/cursor.c src/message/oneof.c',[('pb_message_erase','src/message/message.c'),('pb_oneof_clear','src/message/oneof.c'),('pb_cursor_erase','src/message/cursor.c')],obs=['journal bytes','has/get results'])
p('C16','Descriptor lookup and iteration agree with the descriptor table',
 'Looking up a field by tag or name, or an enum value by number or name, returns the entry of the table (or of a registered extension) that has it, and none exactly when there is none, for any sorted table including negative and aliased enum numbers. Iterating a descriptor visits every entry exactly once in table order, forwards and backwards.',
 'inputs configurations','every descriptor table of every size and every key',
 'Tests look up keys of small dense tables; the search starts at a guess and walks, so gaps, ends and extensions of every shape matter.',
 'src/core/descriptor.c src/core/descriptor.h include/protobluff/core/descriptor.h',[('pb_descriptor_field_by_tag','src/core/descriptor.c'),('pb_enum_descriptor_value_by_number','src/core/descriptor.c'),('pb_descriptor_iter_*','src/core/descriptor.c')],obs=['returned entry'])
p('C17','Registering extensions makes each of them reachable, once',
 'After registering any sequence of extension descriptors, every extended message finds the fields of each registered extension by number, the original fields stay reachable, and registering one again changes nothing.',
 'histories configurations','every sequence of extension registrations, repetitions included',
 'Tests register one extension once.',
 'src/util/descriptor.c include/protobluff/util/descriptor.h src/core/descriptor.c',[('pb_descriptor_extend','include/protobluff/core/descriptor.h')],obs=['field lookup results'])
p('C18','Validation accepts exactly the messages whose required fields are present',
 'Validating a well-formed encoded message succeeds exactly when every required field of it, and recursively of each submessage in it, occurs; otherwise it reports an absent field. Validation never changes the message, and malformed bytes are reported as an error rather than accepted.',
 'inputs configurations','every descriptor, message content and nesting',
 'Tests validate a few small messages; the position and count of required fields, extensions and nesting vary freely.',
 'src/util/validator.c include/protobluff/util/validator.h',[('pb_validator_check','src/util/validator.c')],obs=['returned error'])
p('C19','The chunk allocator hands out disjoint, stable, aligned blocks',
 'Every block a chunk allocator hands out lies wholly inside memory it owns and overlaps no other live block, resizing keeps the contents up to the smaller size, and a failed underlying allocation is reported as a null result leaving existing blocks usable. Destroying it releases every chunk exactly once.',
 'histories inputs fault_sequences','every sequence of allocate, resize and free with any sizes, every failure of the underlying allocator',
 'Tests run a few fixed sequences; growth of the chunk table and resize of the last block depend on the running totals.',
 'src/util/chunk_allocator.c include/protobluff/util/chunk_allocator.h',[('allocator_allocate','src/util/chunk_allocator.c'),('allocator_resize','src/util/chunk_allocator.c'),('allocator_free','src/util/chunk_allocator.c'),('pb_chunk_allocator_destroy','src/util/chunk_allocator.c')],obs=['returned blocks','underlying allocator calls'])
p('C20','An absent field reads as its default, or as absent',
 'Getting an optional field that does not occur yields exactly its default value from the descriptor and, where none is defined, the absent error with the output untouched; it never creates the field. Matching and presence tests report it as absent.',
 'inputs configurations','every field type, default and message without the field',
 'Tests read a few defaults of one schema.',
 'src/message/message.c src/message/nested.c src/core/descriptor.h',[('pb_message_get','src/message/message.c'),('pb_field_descriptor_default','src/core/descriptor.h')],obs=['get results','journal bytes'])
p('C21','Matching a field compares the whole value',
 'Matching a field against a value succeeds exactly when the encoded value equals it: scalars by value, strings and bytes by length and every byte, for every type. It never reads beyond either value and never changes the message.',
 'inputs','every field type, every encoded and given value',
 'Tests match a handful of equal and different values; strings that differ only in length or in the last byte are not all tried.',
 'src/message/field.c src/core/string.h include/protobluff/core/string.h',[('pb_field_match','src/message/field.c'),('pb_string_equals','include/protobluff/core/string.h')],obs=['match result'])
p('C22','Generated bindings describe the schema',
 'For every schema, the generated descriptors and accessors carry the numbers, names, types, labels, defaults and oneof membership of that schema, with fields sorted by number and valid C identifiers.',
 'programs','every schema accepted by the protocol buffer compiler',
 'Tests build a fixed set of schemas.',
 'src/generator/message.cc src/generator/field.cc src/generator/file.cc',[('generator','src/generator')],obs=['generated sources'])
p('C23','Zero-copy mode never allocates and never moves memory',
 'On a zero-copy journal or buffer every operation that keeps the size works in place on the given memory, every operation that would change the size is refused with the allocation error, and no allocation, free or write outside the given memory ever happens. A refused operation leaves all bytes as they were.',
 'inputs histories','every message, every operation and value size',
 'Tests try one put of a different size; in-place edits of every type and combined edits are open.',
 'src/core/allocator.c src/message/buffer.c src/message/journal.c src/message/part.c',[('allocator_zero_copy','src/core/allocator.c'),('pb_journal_write','src/message/journal.c')],obs=['journal memory','allocator calls','returned error'])
p('C24','Reading never changes a message',
 'Getting, matching, testing presence, iterating, aligning, validating and dumping leave every byte, the size and the version of the journal unchanged, for well-formed and malformed messages alike, and never read outside it.',
 'inputs histories','every journal content and every sequence of read operations',
 'Tests compare results but rarely the journal after a read, and only for well-formed input.',
 'src/message/message.c src/message/field.c src/message/cursor.c src/message/nested.c',[('pb_message_get','src/message/message.c'),('pb_cursor_next','src/message/cursor.c'),('pb_field_get','src/message/field.c')],obs=['journal bytes and version'])
p('C25','Operations on invalid handles are refused without effect',
 'Every operation on an invalid buffer, encoder, decoder, journal, message, field, cursor, part or oneof returns the invalid error (or an invalid handle, or false; clearing an invalid oneof has nothing to do and succeeds), touches no memory and calls no allocator; and creating a handle on an invalid one, on an unaligned stale one whose bytes were erased, or on a malformed message yields an invalid handle.',
 'inputs histories','every operation and every way a handle can be invalid',
 'Tests try each operation on one invalid handle, not after histories that invalidate it.',
 'src/message/message.c src/message/field.c src/message/cursor.c src/message/part.c src/core/encoder.c src/core/decoder.c',[('pb_message_valid','src/message/message.c'),('pb_part_valid','src/message/part.c')],obs=['returned error','allocator calls'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
