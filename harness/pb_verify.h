/* Contracts of the loops marked in /repo (verify_loop_(name)) and ghost steps
 * (verify_step_(name, ...)), compiled in when PB_VERIFY is defined. */
#ifndef PB_VERIFY_H
#define PB_VERIFY_H
#include <stddef.h>
#include <stdint.h>
#define verify_loop_(name) VERIFY_LOOP_##name
#define verify_head_(name, ...) VERIFY_HEAD_##name(__VA_ARGS__),
#define verify_step_(name, ...) VERIFY_STEP_##name(__VA_ARGS__)

/* ghost state of the decoder: bytes up to .next have been delivered or
 * skipped, and .pending is set while a value still has to be delivered */
typedef struct {
  size_t next;            /* end of the records delivered so far */
  size_t vnext;           /* end of the packed values delivered so far */
  int pending, bad;       /* a value is due; the bytes are malformed */
  int failed; int fail;   /* the handler has failed, with this error */
  size_t off, len, sub, pend; uint64_t val;
  uint32_t num; int known; int packed;
} dec_ghost_t;
extern dec_ghost_t DG;

/* what can be read at an offset: (offset, type) -> (error, bytes, value);
 * wiretypes to be skipped are types from 32 up */
typedef struct { size_t off; unsigned type; int err; size_t len, sub; uint64_t val; } read_t;
#define NQ 4
extern read_t Q[NQ]; extern unsigned Qn;
struct pb_stream_t;
void dec_step(size_t offset);
void dec_vstep(size_t offset);
#define VERIFY_STEP_decoder_fields(s) dec_step((s)->offset)
#define VERIFY_STEP_decoder_values(s) dec_vstep((s)->offset)
#define VERIFY_LOOP_decoder_fields \
  __CPROVER_assigns(error, stream.offset, __CPROVER_object_whole(value), __CPROVER_object_whole(&DG), __CPROVER_object_whole(&Q), Qn) \
  __CPROVER_loop_invariant(stream.offset <= decoder->buffer->size) \
  __CPROVER_loop_invariant(error ? (DG.failed ? error == DG.fail : DG.bad) : (!DG.failed && !DG.bad && !DG.pending && DG.next == stream.offset)) \
  __CPROVER_decreases(decoder->buffer->size - stream.offset + !error)
#define VERIFY_LOOP_decoder_values \
  __CPROVER_assigns(error, stream.offset, __CPROVER_object_whole(value), __CPROVER_object_whole(&DG), __CPROVER_object_whole(&Q), Qn) \
  __CPROVER_loop_invariant(stream.offset <= decoder->buffer->size && stream.offset >= offset) \
  __CPROVER_loop_invariant(DG.packed && DG.pend == offset + length && DG.next == DG.pend && DG.pend <= decoder->buffer->size) \
  __CPROVER_loop_invariant(error ? (DG.failed ? error == DG.fail : DG.bad) : (!DG.failed && !DG.bad && !DG.pending && DG.vnext == stream.offset && stream.offset <= DG.pend)) \
  __CPROVER_decreases(decoder->buffer->size - stream.offset + !error)

/* ghost state of the encoder: .pos is the end of the bytes written so far */
typedef struct {
  size_t base;            /* size of the buffer before the call */
  size_t start;           /* size of the buffer before the current record */
  size_t pos;
  int stage;              /* what has to be written next */
  int failed;             /* an allocation has failed */
  size_t v;               /* records begun */
  size_t sv, pv, pbase;   /* packed: elements measured, elements written, where */
} enc_ghost_t;
extern enc_ghost_t EG;
extern const size_t *ES;  /* packed: end of the i-th element */
enum { E_TAG, E_LEN, E_VALUE, E_DONE, P_TAG, P_LEN, P_VALUES };
void enc_step(size_t v);
#define VERIFY_STEP_encoder_values(v) enc_step(v)
#define VERIFY_LOOP_encoder_values \
  __CPROVER_assigns(v, temp, error, encoder->buffer.size, encoder->buffer.data, __CPROVER_object_whole(&EG)) \
  __CPROVER_loop_invariant(v <= size && temp == (const uint8_t *)values + v * type_size) \
  __CPROVER_loop_invariant(error ? EG.failed && error == PB_ERROR_ALLOC && encoder->buffer.size == EG.start && EG.start >= EG.base \
    : !EG.failed && EG.v == v && EG.stage == E_DONE && encoder->buffer.size == EG.pos && EG.pos >= EG.base && EG.pos <= (size_t)1 << 48) \
  __CPROVER_decreases(size - v)
#define VERIFY_LOOP_encoder_length \
  __CPROVER_assigns(v, temp, length, EG.sv) \
  __CPROVER_loop_invariant(v <= size && temp == (const uint8_t *)values + v * item \
    && EG.sv == v && length == ES[v]) \
  __CPROVER_decreases(size - v)
#define VERIFY_LOOP_encoder_packed \
  __CPROVER_assigns(v, temp, data, EG.pos, EG.pv) \
  __CPROVER_loop_invariant(v <= size && temp == (const uint8_t *)values + v * item \
    && EG.stage == P_VALUES && EG.pv == v && EG.pos == EG.pbase + ES[v] && data == buffer->data + EG.pos) \
  __CPROVER_decreases(size - v)

/* descriptor tables: TW is an arbitrary index */
extern size_t TW;
struct pb_field_descriptor_t; struct pb_descriptor_t; struct pb_enum_descriptor_t;
const struct pb_field_descriptor_t *rest_by_tag(const struct pb_descriptor_t *, uint32_t);
#ifdef PB_VERIFY_REST    /* recursive calls in this source go here */
const struct pb_field_descriptor_t *rest_call(const struct pb_descriptor_t *d, uint32_t tag) { return rest_by_tag(d, tag); }
#endif
void desc_step(const struct pb_descriptor_t *, size_t);
void enum_step(const struct pb_enum_descriptor_t *, size_t);
#define VERIFY_STEP_descriptor_fields(d, f) desc_step(d, f)
#define VERIFY_LOOP_descriptor_fields \
  __CPROVER_assigns(f) \
  __CPROVER_loop_invariant(f <= descriptor->field.size && !(TW < descriptor->field.size && descriptor->field.data[TW].tag == tag && TW >= f)) \
  __CPROVER_decreases(f)
#define VERIFY_STEP_enum_values(d, v) enum_step(d, v)
#define VERIFY_LOOP_enum_values \
  __CPROVER_assigns(v) \
  __CPROVER_loop_invariant(v < descriptor->value.size && !(TW < descriptor->value.size && descriptor->value.data[TW].number == number && TW > v)) \
  __CPROVER_decreases(v)

/* lookup by name: strcmp is name_cmp, a function of its first argument; WN is
 * the name at index TW and WEQ tells whether it is the one looked for */
extern const char *WN, *EQN; extern int WEQ;
#ifdef PB_VERIFY_NAMES
const struct pb_field_descriptor_t *rest_by_name(const struct pb_descriptor_t *, const char *);
const struct pb_field_descriptor_t *rest_name_call(const struct pb_descriptor_t *d, const char *name) { return rest_by_name(d, name); }
#endif
#define VERIFY_LOOP_descriptor_names \
  __CPROVER_assigns(f, EQN) \
  __CPROVER_loop_invariant(f <= descriptor->field.size && !(WEQ && TW < f)) \
  __CPROVER_decreases(descriptor->field.size - f)
#define VERIFY_LOOP_enum_names \
  __CPROVER_assigns(v, EQN) \
  __CPROVER_loop_invariant(v <= descriptor->value.size && !(WEQ && TW < v)) \
  __CPROVER_decreases(descriptor->value.size - v)

/* the chain of extensions: .XCUR is the node reached by following it */
extern struct pb_descriptor_t *XCUR, *XA, *XB, *XC, *XE;
void extend_step(struct pb_descriptor_t *);
#define VERIFY_STEP_descriptor_extend(d) extend_step(d)
#define VERIFY_LOOP_descriptor_extend \
  __CPROVER_assigns(descriptor, XCUR) \
  __CPROVER_loop_invariant(descriptor == XCUR && (XCUR == XA || XCUR == XB || XCUR == XC)) \
  __CPROVER_decreases(descriptor->field.size)

/* cursors: the record at .o, its length prefix, contents and end, what it is */
struct pb_cursor_t; struct pb_stream_t;
typedef struct { size_t next, o, l, s, e; int bad, match, packed; const void *d; } cur_ghost_t;
extern cur_ghost_t CG; extern const struct pb_field_descriptor_t *F0, *F1;
#define SEEN(i) if (i < Qn && Q[i].off == off && Q[i].type == type) return Q[i];
#define VERIFY_STEP_cursor_fields(c, s) cur_step(c, (s)->offset)
#define VERIFY_LOOP_cursor_fields \
  __CPROVER_assigns(stream.offset, cursor->error, __CPROVER_object_upto(&cursor->current, sizeof(cursor->current)), CG, __CPROVER_object_whole(&Q), Qn) \
  __CPROVER_loop_invariant(stream.offset <= buffer.size && !cursor->error && !cursor->current.packed.end) \
  __CPROVER_loop_invariant(!CG.bad && !CG.match && CG.next == stream.offset && offset->end == stream.offset) \
  __CPROVER_loop_invariant(cursor->current.descriptor == NULL || cursor->current.descriptor == F0 || cursor->current.descriptor == F1) \
  __CPROVER_decreases(buffer.size - stream.offset)
/* sequences of records: SC.n of them, SC.w an arbitrary one of kind .wk (3: an
 * unknown field), .end what follows the last; see sequence.c */
typedef struct {
  size_t n, w; int wk, wmem, wtag, end;  /* .wmem: w is a member of the oneof; .wtag: its tag less than (-1), equal to (0), greater than (1) that of F0 */
  uint32_t t0, t1, t2; int m0, m1, m2, wmatch;   /* tags of F0, F1, F2, whether they are members */
} seq_const_t;
typedef struct {
  int wgone;                /* w has been erased */
  size_t nof;               /* no F0 from here on */
  int cm, any; uint32_t ltag, ptag; size_t li;  /* the record visited is a member; tag and place of the last member; tag of the last before this */
  int member, fail; size_t count; int matched;
} seq_t;
extern seq_const_t SC; extern seq_t SG; extern const struct pb_field_descriptor_t *F2;
extern void *SJ;
void seq_step(struct pb_cursor_t *);
#ifdef PB_VERIFY_CALLS    /* calls of these within their own source */
int seq_next(struct pb_cursor_t *); int call_next(struct pb_cursor_t *c) { return seq_next(c); }
int rec_next(struct pb_cursor_t *); int call_rec(struct pb_cursor_t *c) { return rec_next(c); }
struct pb_message_t;
int rec_packed(struct pb_cursor_t *); int call_packed(struct pb_cursor_t *c) { return rec_packed(c); }
#endif
#define SEQ_AT(c) ((c).current.offset.start)
#define SEQ_BY(c, a, b, d) ((c).current.descriptor == F0 ? (a) : (c).current.descriptor == F1 ? (b) : (d))
#define SEQ_TAG(c) SEQ_BY(c, SC.t0, SC.t1, SC.t2)
#define SEQ_OK(c) (!(c).error && SEQ_BY(c, 1, 1, (c).current.descriptor == F2) && SEQ_AT(c) < SC.n && (c).current.offset.end == SEQ_AT(c) + 1 \
  && (c).message.part.journal == SJ && SG.count == 1 && (SEQ_AT(c) != SC.w || SC.wk == SEQ_BY(c, 0, 1, 2)))
#define SEQ_W(k) (SC.w < SC.n && SC.wk < 3 && SC.w < (k))      /* w is visible and before k */
#define VERIFY_LOOP_cursor_last \
  __CPROVER_assigns(cursor, temp, SG) \
  __CPROVER_loop_invariant(SEQ_OK(cursor) && cursor.tag == tag && cursor.current.descriptor == F0) \
  __CPROVER_loop_invariant(!temp.error && temp.tag == tag && temp.message.part.journal == SJ && temp.current.offset.end == cursor.current.offset.end) \
  __CPROVER_loop_invariant(!SG.wgone && !SG.member && !SG.fail && SG.nof == SC.n) \
  __CPROVER_decreases(SC.n - temp.current.offset.end)
#define VERIFY_LOOP_cursor_oneof \
  __CPROVER_assigns(cursor.error, temp, SG) \
  __CPROVER_loop_invariant(SG.count == 1 && !cursor.error && !temp.error && !temp.tag && temp.current.offset.end > SEQ_AT(cursor) && temp.current.offset.end <= SC.n) \
  __CPROVER_loop_invariant(!SG.wgone && !SG.member && !SG.fail && SG.nof == __CPROVER_loop_entry(SG.nof)) \
  __CPROVER_loop_invariant(!(SEQ_W(temp.current.offset.end) && SC.w > SEQ_AT(cursor) && SC.wmem)) \
  __CPROVER_decreases(SC.n - temp.current.offset.end)
#define VERIFY_LOOP_cursor_seek \
  __CPROVER_assigns(result, *cursor, SG) \
  __CPROVER_loop_invariant(!cursor->error && cursor->tag == __CPROVER_loop_entry(cursor->tag) && cursor->message.part.journal == SJ && !SG.fail && !SG.wgone && result == SG.matched) \
  __CPROVER_loop_invariant(cursor->current.offset.end <= SC.n && cursor->current.offset.end >= __CPROVER_loop_entry(cursor->current.offset.end)) \
  __CPROVER_loop_invariant(!result || (SEQ_OK(*cursor) && SEQ_AT(*cursor) >= __CPROVER_loop_entry(cursor->current.offset.end) && (SEQ_AT(*cursor) != SC.w || (SC.wmatch && SC.wtag == 0)))) \
  __CPROVER_loop_invariant(!(SEQ_W(result ? SEQ_AT(*cursor) : cursor->current.offset.end) && SC.wtag == 0 && SC.w >= __CPROVER_loop_entry(cursor->current.offset.end) && SC.wmatch)) \
  __CPROVER_decreases(SC.n - cursor->current.offset.end)
#define VERIFY_STEP_oneof_case(o) seq_step(&(o)->cursor)
#define VERIFY_LOOP_oneof_case \
  __CPROVER_assigns(tag, __CPROVER_object_upto(&oneof->cursor, sizeof(oneof->cursor)), SG) \
  __CPROVER_loop_invariant(SEQ_OK(oneof->cursor) && !oneof->cursor.tag && tag == SG.ptag && !SG.wgone && !SG.fail) \
  __CPROVER_loop_invariant(SG.cm == SEQ_BY(oneof->cursor, SC.m0, SC.m1, SC.m2) && SG.ltag == (SG.cm ? SEQ_TAG(oneof->cursor) : SG.ptag) && (SG.any ? SG.ltag != 0 : !SG.ltag)) \
  __CPROVER_loop_invariant(!(SEQ_W(SEQ_AT(oneof->cursor) + 1) && SC.wmem) || (SG.any && SG.li >= SC.w)) \
  __CPROVER_decreases(SC.n - SEQ_AT(oneof->cursor))
#define VERIFY_STEP_oneof_clear(o) seq_step(&(o)->cursor)
#define VERIFY_LOOP_oneof_clear \
  __CPROVER_assigns(error, __CPROVER_object_upto(&oneof->cursor, sizeof(oneof->cursor)), SG, __CPROVER_object_whole(SJ)) \
  __CPROVER_loop_invariant(!error && !SG.fail && SEQ_OK(oneof->cursor) && !oneof->cursor.tag) \
  __CPROVER_loop_invariant(SG.wgone == (SEQ_W(SEQ_AT(oneof->cursor)) && SC.wmem)) \
  __CPROVER_decreases(SC.n - SEQ_AT(oneof->cursor))
#define VERIFY_LOOP_message_erase \
  __CPROVER_assigns(error, cursor, SG, __CPROVER_object_whole(SJ)) \
  __CPROVER_loop_invariant(!error && !SG.fail && SEQ_OK(cursor) && cursor.tag == tag && cursor.current.descriptor == F0) \
  __CPROVER_loop_invariant(SG.wgone == (SEQ_W(SEQ_AT(cursor)) && !SC.wtag)) \
  __CPROVER_decreases(SC.n - SEQ_AT(cursor))
#define VERIFY_STEP_part_place(c, t) seq_step(c); seq_step(t)
#define VERIFY_LOOP_part_place \
  __CPROVER_assigns(cursor, temp, SG) \
  __CPROVER_loop_invariant(SEQ_OK(cursor) && SEQ_OK(temp) && !cursor.tag && !temp.tag && SEQ_AT(cursor) <= SEQ_AT(temp)) \
  __CPROVER_loop_invariant(SEQ_AT(cursor) != SEQ_AT(temp) || cursor.current.descriptor == temp.current.descriptor) \
  __CPROVER_loop_invariant(cursor.message.part.version == message->part.version && temp.message.part.version == message->part.version) \
  __CPROVER_loop_invariant(!SG.wgone && !SG.fail && SG.nof == SC.n) \
  __CPROVER_loop_invariant(!(SEQ_W(SEQ_AT(temp)) && SC.wtag == 0) || (SEQ_TAG(cursor) == tag && SEQ_AT(cursor) >= SC.w)) \
  __CPROVER_loop_invariant(!(SEQ_W(SEQ_AT(temp)) && SC.wtag < 0) || SEQ_TAG(cursor) == tag || (SEQ_TAG(cursor) < tag && SEQ_AT(cursor) >= SC.w)) \
  __CPROVER_loop_invariant(SEQ_TAG(cursor) <= tag || !SEQ_W(SEQ_AT(cursor))) \
  __CPROVER_decreases(SC.n - SEQ_AT(temp))
#define VERIFY_STEP_part_oneof(t) seq_step(t)
#define VERIFY_LOOP_part_oneof \
  __CPROVER_assigns(error, temp, SG, __CPROVER_object_whole(SJ)) \
  __CPROVER_loop_invariant(!error && !SG.fail && SEQ_OK(temp) && !temp.tag && SEQ_AT(cursor) <= SEQ_AT(temp)) \
  __CPROVER_loop_invariant(SG.wgone == (SEQ_W(SEQ_AT(temp)) && SC.w >= SEQ_AT(cursor) && SC.wmem && SC.wtag)) \
  __CPROVER_decreases(SC.n - SEQ_AT(temp))
#define VERIFY_LOOP_cursor_next \
  __CPROVER_assigns(result, *cursor, SG) \
  __CPROVER_loop_invariant(!result && !SG.matched && !cursor->error && !SG.fail && cursor->pos == __CPROVER_loop_entry(cursor->pos)) \
  __CPROVER_loop_invariant(cursor->current.offset.end <= SC.n && cursor->current.packed.end <= SC.n && (!cursor->current.packed.end || cursor->current.offset.end <= cursor->current.packed.end)) \
  __CPROVER_decreases(SC.n - (cursor->current.packed.end ? cursor->current.packed.end : cursor->current.offset.end), cursor->current.packed.end)

/* branches of nested messages: .depth submessages have been entered */
typedef struct { size_t depth; int stop, fail; } nest_t;
extern nest_t NG;
#define VERIFY_LOOP_nested_resolve \
  __CPROVER_assigns(t, cursor, temp, NG) \
  __CPROVER_loop_invariant(t <= size && t == NG.depth && !NG.stop && (NG.fail ? temp.part.version == 1ULL << 63 : (temp.part.version == 0 && temp.part.offset.start == t))) \
  __CPROVER_loop_invariant(t ? !cursor.error && cursor.current.offset.start == t : cursor.error && !NG.fail) \
  __CPROVER_decreases(size - t)
#define VERIFY_LOOP_message_nested \
  __CPROVER_assigns(t, prev, this, NG) \
  __CPROVER_loop_invariant(t <= size && t == NG.depth && (NG.fail ? this.part.version == 1ULL << 63 : (this.part.version == 0 && this.part.offset.start == t))) \
  __CPROVER_decreases(size - t)
/* levels of nesting: see level.c */
struct pb_part_t; struct pb_stream_t;
typedef struct { int op, kase, direct; size_t lo, To, Tl, Ts, Ty, x, r, X, bound, version, start, end; ptrdiff_t delta, G, origin, tag, length; } lvl_const_t;
typedef struct { size_t at, l, s, e; int wt, phase, live, below, calls, aligned, fail; ptrdiff_t nd, G; } lvl_t;
extern lvl_const_t LC; extern lvl_t LG;
void lvl_step(struct pb_part_t *, struct pb_stream_t *);
#define VERIFY_STEP_part_records(p, s) lvl_step(p, s)
#define VERIFY_LOOP_part_records \
  __CPROVER_assigns(stream->offset, error, *delta, part->journal->entry.size, LG) \
  __CPROVER_loop_invariant(stream->offset == LG.at && LC.lo <= LG.at && (LG.at <= LC.X || LG.at == LC.bound)) \
  __CPROVER_loop_invariant(!error && *delta == LC.delta && part->journal->entry.size == LC.version) \
  __CPROVER_loop_invariant(!LG.below && !LG.calls && !LG.aligned && !LG.fail && LG.nd == LC.delta) \
  __CPROVER_decreases(LC.bound - LG.at)
/* the validator: see required.c */
typedef struct { int mode; size_t k; uint32_t w; } val_const_t;
typedef struct { size_t total, p, hit; int at_k, need; } val_t;
extern val_const_t VC; extern val_t VG; struct pb_descriptor_t; struct pb_descriptor_iter_t;
extern const struct pb_descriptor_t *VD0, *VDX;
void val_chain(const struct pb_descriptor_t **); void val_field(struct pb_descriptor_iter_t *, void *); void val_tag(uint32_t);
#define VERIFY_STEP_validator_size(c) val_chain(c)
#define VERIFY_LOOP_validator_size \
  __CPROVER_assigns(size, current, VG, __CPROVER_object_whole(VDX)) \
  __CPROVER_loop_invariant(size == VG.total && size < 1000000 && ((current == VD0 && !VG.total) || current == VDX))
#define VERIFY_STEP_validator_required(i, t) val_field(i, t)
#define VERIFY_LOOP_validator_required \
  __CPROVER_assigns(it.pos, error, VG) \
  __CPROVER_loop_invariant(!error && it.pos < it.descriptor->field.size && (VC.mode || it.pos <= VC.k) && VG.total == size) \
  __CPROVER_decreases(it.descriptor->field.size - it.pos)
#define VERIFY_STEP_validator_search(t) val_tag(t)
#define VERIFY_LOOP_validator_search \
  __CPROVER_assigns(t, miss) \
  __CPROVER_loop_invariant(t <= tags.size && (miss == 0 || miss == 1)) \
  __CPROVER_loop_invariant(!(VG.at_k && !VC.mode) || miss) \
  __CPROVER_loop_invariant(!(VG.need && miss) || t <= VG.p) \
  __CPROVER_decreases(2 * (tags.size - t) + miss)
#define VERIFY_STEP_validator_seen(t) (VG.hit = (t))
#define VERIFY_LOOP_validator_seen \
  __CPROVER_assigns(t, miss, VG.hit) \
  __CPROVER_loop_invariant(t <= tags->size && (miss == 0 || miss == 1)) \
  __CPROVER_loop_invariant(miss || (VG.hit < tags->size && tags->data[VG.hit] == descriptor->tag)) \
  __CPROVER_loop_invariant(!(miss && VC.k < t) || tags->data[VC.k] != VC.w) \
  __CPROVER_decreases(tags->size - t)
/* the chunk allocator: see chunk.c */
typedef struct vf_chunk { struct vf_chunk *next; size_t capacity; } vf_chunk;      /* as in chunk_allocator.c */
typedef struct { int before, destroy, wnone; } chk_const_t;
typedef struct { vf_chunk *snext; size_t scap; int seen, wfreed, bfreed, held, last; } chk_t;
extern vf_chunk HB, HW, HS; extern chk_t HG; extern chk_const_t HC; void chk_head(void *), chk_first(void *);
#define VERIFY_HEAD_chunk_last(h) chk_head(h)
#define VERIFY_HEAD_chunk_before(h) chk_head(h)
#define VERIFY_HEAD_chunk_destroy(b) chk_first(b)
#define CHUNK_AT(p, q) ((void *)(p) == (void *)(q))
#define VERIFY_LOOP_chunk_last \
  __CPROVER_assigns(head, HG, HS) \
  __CPROVER_loop_invariant((CHUNK_AT(head, &HB) && !HG.seen) || (CHUNK_AT(head, &HW) && !HG.seen) || CHUNK_AT(head, &HS)) \
  __CPROVER_loop_invariant(HS.next == HG.snext && HS.capacity == HG.scap)
#define VERIFY_LOOP_chunk_before \
  __CPROVER_assigns(head, HG, HS) \
  __CPROVER_loop_invariant(!HG.seen && !HG.wfreed && (CHUNK_AT(head, &HB) || CHUNK_AT(head, &HS))) \
  __CPROVER_loop_invariant(HS.next == HG.snext && HS.capacity == HG.scap)
#define VERIFY_LOOP_chunk_destroy \
  __CPROVER_assigns(head, HG, HS, HW, HB) \
  __CPROVER_loop_invariant(!HG.bfreed && !HG.held && HS.next == HG.snext) \
  __CPROVER_loop_invariant(HB.next == &HS || (HB.next == &HW && !HG.wfreed) || (HB.next == NULL && HG.wfreed))
#endif
