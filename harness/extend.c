/* C17: registering an extension follows the chain of extensions to its end or
 * to the extension, and changes nothing but the end of the chain. */
#include "vf.h"
#ifdef VF_PROOF
#include <pb_verify.h>
#include "core/descriptor.h"
/* one arbitrary step of a chain of any length: its first node A, nodes B and C
 * anywhere in it and the extension E, linked in any way without a cycle (the
 * sizes rank the nodes) */
pb_descriptor_t *XCUR, *XA, *XB, *XC, *XE;
int nondet_int(void); size_t nondet_size(void);
void extend_step(pb_descriptor_t *d) {
  CHECK(d == XCUR, "the chain is followed link by link");
  XCUR = d->extension; }
static pb_descriptor_t *link(size_t rank) {
  int k = nondet_int();
  pb_descriptor_t *p = k == 1 ? XA : k == 2 ? XB : k == 3 ? XC : k == 4 ? XE : NULL;
  REQUIRE(!p || p->field.size < rank);
  return p; }
#define SAME(x, o) ((x)->extension == (o).extension && (x)->field.data == (o).field.data && (x)->field.size == (o).field.size)
void h_extend(void) {
  pb_field_descriptor_t t[1];
  pb_descriptor_t a = { { t, nondet_size() }, NULL }, b = { { t, nondet_size() }, NULL }, c = { { t, nondet_size() }, NULL }, e = { { t, nondet_size() }, NULL };
  XA = &a; XB = &b; XC = &c; XE = &e;
  a.extension = link(a.field.size); b.extension = link(b.field.size); c.extension = link(c.field.size); e.extension = link(e.field.size);
  pb_descriptor_t oa = a, ob = b, oc = c, oe = e;
  XCUR = &a;
  pb_descriptor_extend(&a, &e);
  pb_descriptor_t na = oa, nb = ob, nc = oc;
  if (XCUR == &e) REACH("registered before");
  else {                                   /* the end of the chain */
    CHECK(XCUR && !(XCUR == &a ? oa : XCUR == &b ? ob : oc).extension, "only the end of the chain is linked");
    if (XCUR == &a) { na.extension = &e; REACH("first"); } else if (XCUR == &b) { nb.extension = &e; REACH("later"); } else nc.extension = &e; }
  CHECK(SAME(&a, na) && SAME(&b, nb) && SAME(&c, nc) && SAME(&e, oe), "the extension is linked to the end of the chain unless it is in it, and nothing else changes"); }
#endif
