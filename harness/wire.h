/* Reference reading of the wire format (from the Protocol Buffers encoding
 * rules), independent of the library.  All loops are bounded by constants. */
#ifndef WIRE_H
#define WIRE_H
#include "vf.h"
#include "spec.h"
#include <protobluff/core/common.h>

typedef struct { int ok; uint32_t num; unsigned wt; size_t tag, len, val, end; } rec_t;

/* the record at o in d[o..n): tag at .tag, length prefix at .len (if any),
 * payload d[val..end) */
static rec_t w_record(const uint8_t *d, size_t o, size_t n) {
  rec_t r = { 0, 0, 0, o, 0, 0, 0 };
  size_t l = spec_varint_len(d + o, n - o, 5);
  if (!l) return r;
  uint32_t t = (uint32_t)spec_varint_value(d + o, l);
  r.num = t >> 3; r.wt = t & 7; o += l; r.len = r.val = o;
  size_t left = n - o, k;
  if (r.wt == 0) { k = spec_varint_len(d + o, left, 10); if (!k) return r; r.end = o + k; }
  else if (r.wt == 1) { if (left < 8) return r; r.end = o + 8; }
  else if (r.wt == 5) { if (left < 4) return r; r.end = o + 4; }
  else if (r.wt == 2) {
    k = spec_varint_len(d + o, left, 5); if (!k) return r;
    uint32_t s = (uint32_t)spec_varint_value(d + o, k);
    r.val = o + k;
    if (left - k < s) return r;
    r.end = r.val + s;
  } else return r;
  r.ok = 1; return r; }

static unsigned w_wiretype(pb_type_t t) {
  switch (t) {
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT: return 5;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 1;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE: return 2;
    default: return 0; } }

/* size of the value of type t at o (0: malformed), *v its value (scalars:
 * bit pattern of the native type, zero-extended) */
static size_t w_scalar(pb_type_t t, const uint8_t *d, size_t o, size_t n, uint64_t *v) {
  size_t l, left = n - o;
  *v = 0;
  if (w_wiretype(t) == 5 || w_wiretype(t) == 1) {
    l = w_wiretype(t) == 5 ? 4 : 8;
    if (left < l) return 0;
    for (size_t i = 0; i < 8; i++) if (i < l) *v |= (uint64_t)d[o + i] << (8 * i);
    return l; }
  if (t == PB_TYPE_UINT32 || t == PB_TYPE_SINT32) {
    l = spec_varint_len(d + o, left, 5);
    uint32_t u = (uint32_t)spec_varint_value(d + o, l);
    *v = t == PB_TYPE_UINT32 ? u : (uint32_t)((u >> 1) ^ (0u - (u & 1)));
    return l; }
  if (t == PB_TYPE_BOOL) {
    l = spec_varint_len(d + o, left, 2);
    *v = (uint8_t)spec_varint_value(d + o, l);
    return l; }
  l = spec_varint_len(d + o, left, 10);
  uint64_t u = spec_varint_value(d + o, l);
  if (t == PB_TYPE_INT32 || t == PB_TYPE_ENUM) {
    if (l > 5 && !(l == 10 && (int64_t)u < 0 && (int64_t)u == (int64_t)(int32_t)(uint32_t)u && d[o + 9] == 1)) return 0;
    *v = (uint32_t)u; return l; }
  *v = t == PB_TYPE_SINT64 ? (u >> 1) ^ (0ull - (u & 1)) : u;
  return l; }

static size_t w_native(pb_type_t t) {       /* bytes of the native scalar */
  switch (t) {
    case PB_TYPE_BOOL: return 1;
    case PB_TYPE_INT64: case PB_TYPE_UINT64: case PB_TYPE_SINT64: case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 8;
    default: return 4; } }
static uint64_t w_load(pb_type_t t, const void *p) {
  switch (w_native(t)) { case 1: return *(const uint8_t *)p; case 4: return *(const uint32_t *)p; default: return *(const uint64_t *)p; } }
#endif
