/* C18, unbounded: the tags of all fields that occur are recorded, and a
 * message is rejected if and only if a required field's is not among them.
 * Visiting fields is the decoder's contract (C04); submessages by induction.
 * A universally quantified hypothesis is instantiated where it is used. */
#include "vf.h"
#include <pb_verify.h>
#include "core/buffer.h"
#include "core/decoder.h"
#include "core/descriptor.h"
#include "util/validator.h"
int nondet_int(void); size_t nondet_size(void);
val_t VG = { 0 }; val_const_t VC = { 0 };
typedef struct { pb_tag_t *data; size_t size; } tags_t;      /* as in validator.c */
pb_error_t handler(const pb_field_descriptor_t *descriptor, const void *value, void *user); pb_error_t check(const pb_decoder_t *decoder);
static pb_error_t any_result(void) { int e = nondet_int(); REQUIRE(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM); return (pb_error_t)e; }
static pb_descriptor_t D0 = { { NULL, 0 }, NULL }, DX = { { NULL, 0 }, NULL }; const struct pb_descriptor_t *VD0 = &D0, *VDX = &DX;
static pb_buffer_t BUF; static const pb_decoder_t *SUBD; static pb_error_t cerr; static int checks, decodes; static tags_t TAGS;
pb_error_t val_check(const pb_decoder_t *d) { checks++; if (SUBD) CHECK(d == SUBD, "the submessage is checked"); else CHECK(d->descriptor == &D0 && d->buffer == &BUF, "the message is checked"); return cerr; }
/* the next descriptor of the chain of extensions */
void val_chain(const pb_descriptor_t **cur) {
  if (*cur == &D0) *cur = &D0;
  else { CHECK(*cur == &DX, "the chain is followed"); *cur = &DX; *(size_t *)&DX.field.size = nondet_size(); *(const void **)&DX.extension = nondet_int() ? &DX : NULL; REQUIRE(DX.field.size < 1000 && VG.total + DX.field.size < 1000000); }
  VG.total += (*cur)->field.size; }
/* the field the iteration is at */
void val_field(pb_descriptor_iter_t *it, void *tags) {
  CHECK(it->descriptor == &D0 && it->pos < D0.field.size, "the fields of the message are visited"); const tags_t *t = tags;
  const pb_field_descriptor_t *f = &D0.field.data[it->pos]; VG.at_k = it->pos == VC.k; VG.need = 0;
  if (VC.mode && f->label == PB_LABEL_REQUIRED) { VG.need = 1; VG.p = nondet_size(); REQUIRE(VG.p < t->size && t->data[VG.p] == f->tag); } }
void val_tag(pb_tag_t tag) { if (!VC.mode) REQUIRE(tag != VC.w); }      /* no occurrence of w was recorded */
pb_error_t pb_decoder_decode(const pb_decoder_t *d, pb_decoder_handler_f h, void *user) {
  tags_t *t = user; CHECK(!decodes++ && d->descriptor == &D0 && d->buffer == &BUF && h == handler, "the message is decoded"); CHECK(!t->size, "from no fields");
  CHECK(__CPROVER_r_ok(t->data, VG.total * sizeof(pb_tag_t)), "there is room for every field"); t->size = nondet_size(); REQUIRE(t->size <= VG.total); return cerr; }

static void setup(void) { VD0 = &D0; VDX = &DX;
  size_t n = nondet_size(); REQUIRE(n < 1000); pb_field_descriptor_t *f = malloc((n ? n : 1) * sizeof *f); REQUIRE(f != NULL); *(const void **)&D0.field.data = f; *(size_t *)&D0.field.size = n; *(const void **)&D0.extension = nondet_int() ? &DX : NULL;
  VG.total = 0; decodes = checks = 0; cerr = any_result(); SUBD = NULL; VG.at_k = VG.need = 0; VG.p = 0; }
void h_absent(void) {
  setup(); VC.mode = 0; VC.k = nondet_size(); REQUIRE(VC.k < D0.field.size && D0.field.data[VC.k].label == PB_LABEL_REQUIRED); VC.w = D0.field.data[VC.k].tag;
  const pb_decoder_t d = { &D0, &BUF }; pb_error_t e = check(&d);
  CHECK(decodes == 1, "the message is decoded"); CHECK(cerr ? e == cerr : e == PB_ERROR_ABSENT, "a message without a required field is rejected"); if (cerr) REACH("malformed"); else REACH("absent"); }
void h_present(void) {
  setup(); VC.mode = 1; VC.k = 0; VC.w = 0;
  const pb_decoder_t d = { &D0, &BUF }; pb_error_t e = check(&d);
  CHECK(decodes == 1 && e == cerr, "a message with every required field is accepted"); if (!cerr) REACH("accepted"); }
void h_record(void) {
  size_t n = nondet_size(), cap = nondet_size(); REQUIRE(n < cap && cap <= 1000000); pb_tag_t *a = malloc(cap * sizeof *a); REQUIRE(a != NULL); TAGS.data = a; TAGS.size = n;
  int t = nondet_int(); REQUIRE(t >= PB_TYPE_INT32 && t <= PB_TYPE_MESSAGE); pb_field_descriptor_t f = { .tag = (pb_tag_t)nondet_size(), .type = (pb_type_t)t }; pb_decoder_t sub = { &D0, &BUF }; SUBD = &sub; cerr = any_result(); checks = 0;
  VC.k = nondet_size(); REQUIRE(VC.k < cap); pb_tag_t old = a[VC.k]; VC.mode = 0; VC.w = f.tag;
  pb_error_t e = handler(&f, &sub, &TAGS);
  CHECK(TAGS.data == a && (TAGS.size == n || TAGS.size == n + 1), "a tag is recorded at most once");
  if (TAGS.size == n) { CHECK(n && VG.hit < n && a[VG.hit] == f.tag, "not again if it has been"); CHECK(a[VC.k] == old, "the others are kept"); REACH("again"); }
  else { CHECK(a[n] == f.tag, "the tag of the field"); if (VC.k != n) CHECK(a[VC.k] == old, "the others are kept"); if (VC.k < n) CHECK(old != f.tag, "that was not there"); REACH("first"); }
  CHECK(f.type == PB_TYPE_MESSAGE ? checks == 1 && e == cerr : !checks && !e, "submessages are checked, and only they"); }
void h_top(void) {
  pb_descriptor_t *d = &D0; pb_validator_t v = { d }; uint8_t *b = nondet_int() ? malloc(1) : NULL; BUF.data = b; BUF.size = b ? nondet_size() : 0; cerr = any_result(); checks = 0; SUBD = NULL;
  pb_error_t e = pb_validator_check(&v, &BUF);
  if (checks) { CHECK(checks == 1 && e == cerr, "the outcome is that of the message"); REACH("checked"); } else { CHECK(e == PB_ERROR_INVALID && !pb_buffer_valid(&BUF), "only invalid buffers are refused"); REACH("refused"); } }
