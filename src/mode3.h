/* The user-supplied allocator of memory mode 3: blocks start 32 bytes into a
   system block, behind a tag, so a block that takes another way in or out is
   seen by the monitored allocator; counted like the accounting mode. MEMMODE3
   is the size type. Also the user-supplied branch macros of expect mode 3. */
#ifdef MEMMODE3
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define zj_MEMORY_MODE 3
#define z_MEMORY_MODE 3
static unsigned long long m3_count[3];
static inline void *m3_new(size_t size) {
  char *p = (char *)malloc(size + 32);
  m3_count[0] += 1;
  m3_count[2] += size + 32;
  memcpy(p, "block of the custom allocator...", 32);
  return p + 32;
}
static inline void m3_free(void *q) {
  char *p = (char *)q;
  m3_count[1] += 1;
  if (memcmp(p - 32, "block of the custom allocator...", 32)) abort();
  memcpy(p - 32, "a released block, not a live one", 32);
  free(p - 32);
}
static inline void *zj_new(MEMMODE3 size) { return m3_new(size); }
static inline void zj_free(void *p) { m3_free(p); }
static inline void *z_New(MEMMODE3 size) { return m3_new(size); }
static inline void z_Free(void *p) { m3_free(p); }
#define M3_BALANCE ((long)m3_count[0] - (long)m3_count[1])
#define M3_COUNTERS(o) (o[0] = m3_count[0], o[1] = m3_count[1], o[2] = m3_count[2], true)
#endif
#ifdef EXPECT3
#define zj_EXPECT_MODE 3
#define z_EXPECT_MODE 3
static inline int m3_bool(int x) { return x; }
#define zj_LIKELY(x) m3_bool((x) != 0)
#define zj_UNLIKELY(x) m3_bool((x) != 0)
#define z_LIKELY(x) m3_bool((x) != 0)
#define z_UNLIKELY(x) m3_bool((x) != 0)
#endif
