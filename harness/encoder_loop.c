/* C05, C06, unbounded: the encoder writes, in order and without gaps, exactly
 * the tag, length and values the wire format prescribes, for any number of
 * values.  The callees are their contracts: packing a varint at a position
 * writes its canonical encoding there (C01), growing yields the room behind
 * the bytes so far and keeps them, possibly elsewhere, or fails and changes
 * nothing (C08), descriptor lookup finds the field (C16), memcpy copies.  The
 * bytes are not accessible otherwise: any other write fails. */
#include "vf.h"
#include "spec.h"
#include <pb_verify.h>
#include "core/buffer.h"
#include "core/descriptor.h"
#include "core/encoder.h"
#include "core/varint.h"
#include <protobluff/core/string.h>

enc_ghost_t EG; const size_t *ES;
static pb_buffer_t *B; static const pb_field_descriptor_t *F;
static uint8_t *D0; static const uint8_t *VAL; static size_t N, ITEM; static int PACKED;
static pb_descriptor_t desc = { { NULL, 0 }, NULL };
static pb_allocator_t A;
int nondet_int(void); size_t nondet_size(void);
static unsigned w_wt(pb_type_t t) { return pb_field_descriptor_wiretype_map[t]; }
uint8_t *pb_buffer_grow(pb_buffer_t *b, size_t n) {
  CHECK(b == B && n > 0, "the buffer of the encoder is grown");
  CHECK(!EG.failed, "nothing is written after a failure");
  if (nondet_int() || n > VF_SIZE_MAX - b->size) { EG.failed = 1; REACH("allocation failure"); return NULL; }
  size_t old = b->size;
  size_t moved = nondet_size(); REQUIRE(moved <= VF_SIZE_MAX);
  b->data = D0 + moved;
  b->size = old + n;
  return b->data + old; }

static void wrote(const uint8_t *at, size_t n) {
  CHECK(at == B->data + EG.pos, "written behind the bytes so far");
  CHECK(n <= B->size - EG.pos, "written into the room requested");
  EG.pos += n; }

void *memcpy(void *to, const void *from, size_t n) {
  size_t wt = w_wt(F->type);
  if (EG.stage == P_VALUES) {
    CHECK(wt != PB_WIRETYPE_VARINT && EG.pv == 0, "only values of fixed size are copied");
    CHECK(from == VAL && n == N * ITEM, "exactly the values are copied");
    EG.pv = N;
  } else {
    CHECK(EG.stage == E_VALUE && wt != PB_WIRETYPE_VARINT, "a value is copied after its tag and length");
    const uint8_t *val = VAL + (EG.v - 1) * ITEM;
    if (wt != PB_WIRETYPE_LENGTH) CHECK(from == val && n == (wt == PB_WIRETYPE_64BIT ? 8 : 4), "exactly the value is copied");
    else if (F->type == PB_TYPE_MESSAGE) CHECK(from == ((const pb_encoder_t *)val)->buffer.data && n == ((const pb_encoder_t *)val)->buffer.size, "exactly the submessage is copied");
    else CHECK(from == ((const pb_string_t *)val)->data && n == ((const pb_string_t *)val)->size, "exactly the string is copied");
    EG.stage = E_DONE; }
  wrote(to, n);
  return to; }

/* encoded size of an element */
static size_t elem(size_t i) { size_t n = ES[i + 1] - ES[i];
  REQUIRE(ES[i + 1] > ES[i] && n <= 10 && ES[i + 1] <= ES[N]); return n; }
static int inside(const void *p) { return __CPROVER_same_object(p, VAL); }

static size_t size_any(pb_type_t type, const void *value) {
  if (!inside(value)) { CHECK(type == PB_TYPE_UINT32, "tags and lengths are unsigned"); return spec_varint_size(*(const uint32_t *)value); }
  CHECK(type == F->type, "values are measured as what they are");
  if (PACKED) {
    CHECK(EG.sv < N && value == VAL + EG.sv * ITEM, "values are measured one after the other");
    return elem(EG.sv++); }
  CHECK(value == VAL + (EG.v - 1) * ITEM, "the value is measured");
  return elem(EG.v - 1); }

static size_t pack_any(pb_type_t type, uint8_t *at, const void *value) {
  size_t n;
  if (EG.stage == E_TAG || EG.stage == P_TAG) {
    CHECK(type == PB_TYPE_UINT32 && !inside(value), "the tag comes first");
    uint32_t t = *(const uint32_t *)value;
    CHECK(t == ((F->tag << 3) | (EG.stage == P_TAG ? PB_WIRETYPE_LENGTH : w_wt(F->type))), "the tag is number and wire type of the field");
    n = spec_varint_size(t);
    EG.stage = EG.stage == P_TAG ? P_LEN : w_wt(F->type) == PB_WIRETYPE_LENGTH ? E_LEN : E_VALUE;
  } else if (EG.stage == E_LEN || EG.stage == P_LEN) {
    CHECK(type == PB_TYPE_UINT32 && !inside(value), "then comes the length");
    uint32_t l = *(const uint32_t *)value; const uint8_t *val = VAL + (EG.v - 1) * ITEM;
    CHECK(l == (EG.stage == P_LEN ? w_wt(F->type) == PB_WIRETYPE_VARINT ? ES[N] : N * ITEM :
      F->type == PB_TYPE_MESSAGE ? ((const pb_encoder_t *)val)->buffer.size : ((const pb_string_t *)val)->size), "the length is the number of bytes that follow");
    n = spec_varint_size(l);
    EG.pbase = EG.pos + n; EG.stage = EG.stage == P_LEN ? P_VALUES : E_VALUE;
  } else if (EG.stage == P_VALUES) {
    CHECK(w_wt(F->type) == PB_WIRETYPE_VARINT && type == F->type, "values are packed as what they are");
    CHECK(EG.pv < N && value == VAL + EG.pv * ITEM, "values are packed one after the other");
    n = elem(EG.pv++);
  } else {
    CHECK(EG.stage == E_VALUE && w_wt(F->type) == PB_WIRETYPE_VARINT && type == F->type, "then comes the value, as what it is");
    CHECK(value == VAL + (EG.v - 1) * ITEM, "it is the value given");
    n = elem(EG.v - 1); EG.stage = E_DONE; }
  wrote(at, n);
  return n; }

#define T(name, type) \
  static size_t size_##name(const void *v) { return size_any(type, v); } \
  static size_t pack_##name(uint8_t *d, const void *v) { return pack_any(type, d, v); }
T(i32, PB_TYPE_INT32) T(i64, PB_TYPE_INT64) T(u64, PB_TYPE_UINT64) T(s32, PB_TYPE_SINT32) T(s64, PB_TYPE_SINT64) T(b, PB_TYPE_BOOL) T(e, PB_TYPE_ENUM)
size_t pb_varint_size_uint32(const void *v) { return size_any(PB_TYPE_UINT32, v); }
size_t pb_varint_pack_uint32(uint8_t *d, const void *v) { return pack_any(PB_TYPE_UINT32, d, v); }
const pb_varint_size_f pb_varint_size_jump[] = {
  [PB_TYPE_INT32] = size_i32, [PB_TYPE_INT64] = size_i64, [PB_TYPE_UINT32] = pb_varint_size_uint32, [PB_TYPE_UINT64] = size_u64,
  [PB_TYPE_SINT32] = size_s32, [PB_TYPE_SINT64] = size_s64, [PB_TYPE_BOOL] = size_b, [PB_TYPE_ENUM] = size_e, [PB_TYPE_MESSAGE] = NULL };
const pb_varint_pack_f pb_varint_pack_jump[] = {
  [PB_TYPE_INT32] = pack_i32, [PB_TYPE_INT64] = pack_i64, [PB_TYPE_UINT32] = pb_varint_pack_uint32, [PB_TYPE_UINT64] = pack_u64,
  [PB_TYPE_SINT32] = pack_s32, [PB_TYPE_SINT64] = pack_s64, [PB_TYPE_BOOL] = pack_b, [PB_TYPE_ENUM] = pack_e, [PB_TYPE_MESSAGE] = NULL };

const pb_field_descriptor_t *pb_descriptor_field_by_tag(const pb_descriptor_t *d, pb_tag_t tag) {
  CHECK(d == &desc && tag == F->tag, "the field is looked up in the descriptor of the encoder");
  return F; }

static void begin(void) { EG.start = B->size; EG.pos = EG.start; EG.stage = PACKED ? P_TAG : E_TAG; }
void enc_step(size_t v) {
  CHECK(!PACKED, "packed fields are not written value by value");
  CHECK(v == EG.v && EG.stage == E_DONE && B->size == EG.pos, "the record before is complete");
  if (w_wt(F->type) == PB_WIRETYPE_LENGTH) {
    const uint8_t *val = VAL + v * ITEM;
    REQUIRE((F->type == PB_TYPE_MESSAGE ? ((const pb_encoder_t *)val)->buffer.size : ((const pb_string_t *)val)->size) <= UINT32_MAX); }
  begin(); EG.v = v + 1; }

void h_encode_loop(void) {
  pb_field_descriptor_t f = { nondet_size(), NULL, TYPE, nondet_int(), NULL, NULL, nondet_int() }; F = &f;
  REQUIRE(F->tag >= 1 && F->tag < 1u << 29);
  N = nondet_size(); REQUIRE(N >= 1 && N <= 1u << 28 && (N == 1 || F->label == PB_LABEL_REPEATED));
  REQUIRE(!(F->flags & PB_FLAG_PACKED) || w_wt(F->type) != PB_WIRETYPE_LENGTH);
  REQUIRE(PK == (N > 1 && (F->flags & PB_FLAG_PACKED)));   /* one path at a time */
  PACKED = PK;
  ITEM = F->type == PB_TYPE_MESSAGE ? sizeof(pb_encoder_t) : w_wt(F->type) == PB_WIRETYPE_LENGTH ? sizeof(pb_string_t)
    : F->type == PB_TYPE_BOOL ? 1 : F->type == PB_TYPE_INT64 || F->type == PB_TYPE_UINT64 || F->type == PB_TYPE_SINT64
      || F->type == PB_TYPE_DOUBLE || F->type == PB_TYPE_FIXED64 || F->type == PB_TYPE_SFIXED64 ? 8 : 4;
  VAL = malloc(N * ITEM); REQUIRE(VAL != NULL);
  size_t *es = malloc((N + 1) * sizeof *es); REQUIRE(es != NULL); es[0] = 0; ES = es;
  REQUIRE(!PACKED || (ES[N] <= UINT32_MAX && N * ITEM <= UINT32_MAX));
  pb_encoder_t enc = { &desc, { &A, NULL, nondet_size() } }; B = &enc.buffer;
  REQUIRE(B->size <= VF_SIZE_MAX);
  D0 = malloc(0); REQUIRE(D0 != NULL); B->data = D0;
  EG.base = B->size;
  EG.v = EG.sv = EG.pv = EG.pbase = 0; EG.failed = 0; begin(); if (!PACKED) EG.stage = E_DONE;
  pb_error_t e = pb_encoder_encode(&enc, F->tag, VAL, N);
  CHECK(enc.descriptor == &desc && enc.buffer.allocator == &A, "the encoder keeps its descriptor and allocator");
  if (e) {
    CHECK(e == PB_ERROR_ALLOC && EG.failed, "encoding fails exactly if an allocation does, with that error");
    CHECK(enc.buffer.size == EG.start && EG.start >= EG.base, "the buffer ends with the last complete record");
    REACH("failed");
  } else {
    CHECK(!EG.failed && enc.buffer.size == EG.pos, "the buffer ends with the bytes written");
    if (PACKED) CHECK(EG.stage == P_VALUES && EG.pv == N, "all values are packed");
    else CHECK(EG.stage == E_DONE && EG.v == N, "all values are encoded");
    REACH("encoded"); }
}
