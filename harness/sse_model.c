/* Bodies for the two SSE2 builtins cbmc has no model of (trusted; from the
 * Intel intrinsics guide). */
#ifdef VF_CBMC
typedef char v16 __attribute__((__vector_size__(16)));
int __builtin_ia32_pmovmskb128(v16 a) {
  int r = 0;
  for (int i = 0; i < 16; i++) if (((unsigned char *)&a)[i] & 0x80) r |= 1 << i;
  return r; }
#endif
