/* C12, recorded finding: putting a value takes several journal edits (tag,
 * value, then one per enclosing length prefix).  When the system allocator
 * fails between them, the put reports the error but the first edits stay.
 *   cc -DNDEBUG -std=c99 -I$R/include -I$R/src c12-midway-failure.c $R/src/core/[a-z]*.c $R/src/message/[a-z]*.c $R/src/util/descriptor.c && ./a.out
 * prints one line per field and failing allocation, and 1 at the end if the
 * journal was left changed by a failed put. */
#include <stdio.h>
#include <string.h>
#include <protobluff/message.h>
#include "core/allocator.h"
#include "message/journal.h"
#include "message/message.h"
static pb_allocator_t sys; static int left;
static void *al(void *d, size_t n) { return left-- <= 0 ? NULL : sys.proc.allocate(d, n); }
static void *re(void *d, void *b, size_t n) { return left-- <= 0 ? NULL : sys.proc.resize(d, b, n); }
static pb_field_descriptor_t f[] = { { 1, "a", PB_TYPE_UINT32, PB_LABEL_OPTIONAL, NULL, NULL, 0 } };
static pb_descriptor_t d = { { f, 1 }, NULL };
int main(void) {
  int changed = 0; sys = allocator_default;
  for (int k = 0; k < 8; k++) {
    pb_journal_t j = pb_journal_create_empty(); pb_message_t m = pb_message_create(&d, &j); uint32_t v = 7;
    allocator_default.proc.allocate = al; allocator_default.proc.resize = re; left = k;
    pb_error_t e = pb_message_put(&m, 1, &v); left = 1000;
    printf("allocation %d fails: error %d, journal of %zu bytes\n", k + 1, e, pb_journal_size(&j));
    changed |= e && pb_journal_size(&j);
    pb_message_destroy(&m); pb_journal_destroy(&j); }
  printf("%d\n", changed); return 0; }
