/* Executable contracts over arbitrary bytes: reading never writes, never reads
 * outside, visits exactly the well-formed prefix and reports the rest; edits
 * of malformed messages are refused. */
#define HARNESS_ONLY
#include "message.c"

typedef struct { size_t start, end; } span;
/* the occurrences of f in d[s..n) up to the first malformed record or element */
static unsigned reference(const pb_field_descriptor_t *f, const uint8_t *d, size_t s, size_t n, span *o, unsigned max, int *bad) {
  unsigned k = 0; *bad = 0;
  while (s < n) {
    rec_t r = w_record(d, s, n);
    if (!r.ok) { *bad = 1; return k; }
    s = r.end;
    if (r.num != f->tag) continue;
    if (r.wt == w_wiretype(f->type)) { if (k < max) o[k++] = (span){ r.val, r.end }; }
    else if (r.wt == 2) for (size_t q = r.val; q < r.end; ) {
      unsigned w = w_wiretype(f->type); size_t l = w == 0 ? spec_varint_len(d + q, r.end - q, 10) : w == 1 ? 8 : 4;
      if (!l || l > r.end - q) { *bad = 1; return k; }
      if (k < max) o[k++] = (span){ q, q + l }; q += l; } }
  return k; }
static int level_bad(const uint8_t *d, size_t s, size_t n) { while (s < n) { rec_t r = w_record(d, s, n); if (!r.ok) return 1; s = r.end; } return 0; }

static void visit(pb_message_t *h, int depth) {
  size_t ms = pb_message_start(h), me = pb_message_end(h); const uint8_t *d = pb_journal_data(&J); static span o[512];
  for (int i = 0; i < 6; i++) {
    const pb_field_descriptor_t *f = any_field(); int bad; unsigned n = reference(f, d, ms, me, o, 512, &bad), k = 0;
    pb_cursor_t c = pb_cursor_create_unsafe(h, f->tag);
    if (pb_cursor_valid(&c)) do {
      CK("C13", k < n, "a cursor visits nothing beyond the well-formed fields"); REQUIRE(k < n);
      const pb_offset_t *q = pb_cursor_offset(&c);
      CK("C13", q->start == o[k].start && q->end == o[k].end && q->end <= me, "a cursor visits exactly the well-formed occurrences");
      if (f->type != PB_TYPE_MESSAGE) { any got; pb_error_t err = pb_cursor_get(&c, &got);
        uint64_t v; int ok = w_wiretype(f->type) == 2 || w_scalar(f->type, d, o[k].start, o[k].end, &v);
        if (ok) CK("C13 C24", !err && stands_for(f, &got, d + o[k].start, o[k].end - o[k].start), "and reads its value");
        else { CK("C13 C24", err, "what is no value of the type is reported"); REACH("no value"); } }
      k++; } while (pb_cursor_next(&c));
    CK("C13", k == n, "a cursor visits every well-formed occurrence");
    CK("C13", bad ? pb_cursor_error(&c) && pb_cursor_error(&c) != PB_ERROR_EOM : pb_cursor_error(&c) == PB_ERROR_EOM, "and reports whether it reached the end or malformed bytes");
    pb_cursor_destroy(&c); if (bad) REACH("malformed");
    any got; value x = any_value(f);
    int has = pb_message_has(h, f->tag); (void)has;
    if (f->type != PB_TYPE_MESSAGE) {
      if (f->label != PB_LABEL_REPEATED) (void)!pb_message_get(h, f->tag, &got);
      (void)!pb_message_match(h, f->tag, &x.v); }
    pb_tag_t t[2] = { 5, f->tag };
    (void)pb_message_nested_has(h, t, 2); }
  pb_oneof_t on = pb_oneof_create(&one, h); (void)pb_oneof_case(&on); pb_oneof_destroy(&on);
  if (level_bad(d, ms, me)) {                     /* nothing can be created here */
    save(); const pb_field_descriptor_t *f = any_scalar(); value x = any_value(f);
    pb_field_t q = pb_field_create(h, f->tag); CK("C25", !pb_field_valid(&q), "a malformed message has no new fields");
    CK("C25", pb_message_put(h, f->tag, &x.v), "putting to a malformed message is refused");
    pb_message_t s = pb_message_create_within(h, (uint32_t[]){ 5, 6, 11 }[RN(3)]); CK("C25", !pb_message_valid(&s), "a malformed message has no new submessages");
    unchanged("C25", "and nothing changes"); REACH("refused"); }
  if (depth < 4) {
    pb_cursor_t c = pb_cursor_create_unsafe(h, (uint32_t[]){ 5, 6, 11 }[RN(3)]);
    if (pb_cursor_valid(&c)) do { pb_message_t s = pb_message_create_from_cursor(&c); CK("C13", pb_message_valid(&s), "a submessage can be taken from a cursor"); visit(&s, depth + 1); } while (RN(3) && pb_cursor_next(&c));
    pb_cursor_destroy(&c); } }

void h_malformed(void) {
  seed(); count();
  for (int it = 0; it < 60; it++) { flags(); gen_flags = 31; big = 0; EXHAUSTED = FAILED = 0; if (setjmp(OUT)) continue;
    bytes b = { 0 }; ROOT = gen(0); encode(ROOT, &b);
    if (RN(6) == 0) { b.n = 0; for (int k = RN(30); k--; ) { uint8_t x = (uint8_t)(RN(3) ? R() : (any_field()->tag << 3) | RN(8)); put(&b, &x, 1); } }
    for (int k = RN(5); k-- && b.n; ) switch (RN(4)) {
      case 0: b.n -= RN((uint32_t)b.n > 8 ? 8 : (uint32_t)b.n); break;
      case 1: b.d[RN((uint32_t)b.n)] ^= 1 << RN(8); break;
      case 2: b.d[RN((uint32_t)b.n)] = (uint8_t[]){ 0xff, 0x80, 0, 1, 0x7f, 0x2a, 0x32, 0x3b, 0x22 }[RN(9)]; break;
      default: { size_t at = RN((uint32_t)b.n), l = RN(4); if (at + l <= b.n) { memmove(b.d + at, b.d + at + l, b.n - at - l); b.n -= l; } } }
    if (!b.n) continue;
    uint8_t *x = malloc(b.n); memcpy(x, b.d, b.n);
    ZERO = RN(2); J = ZERO ? pb_journal_create_zero_copy(x, b.n) : pb_journal_create(x, b.n);
    pb_message_t h = pb_message_create(&D, &J);
    size_t a = ALLOCS; visit(&h, 0); CK("C24 C23", ALLOCS == a, "reading does not allocate");
    CK("C24", pb_journal_size(&J) == b.n && !memcmp(pb_journal_data(&J), b.d, b.n) && !memcmp(x, b.d, b.n) && !pb_journal_version(&J), "reading changes nothing");
    pb_journal_destroy(&J); free(x); free(b.d); } }
