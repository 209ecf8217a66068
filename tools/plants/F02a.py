prop='F02'
needs='a crash in the middle of an update of a file of more than 4 KB, with old and new data of the same size and the same first 4 KB'
breaks='writer and reader compute the checksum over the first 4 KB only, a mixture of old and new data is accepted'
edits=[
('src/kvtree.c',
r'''  /* write the crc to the buffer */
  kvtree_pack_uint32_t(buf, filesize, &size, (uint32_t) crc);''',
r'''  /* write the crc to the buffer */
  if (size > 4096) {
    crc = crc32(crc32(0L, Z_NULL, 0), (const Bytef*) buf, 4096);
  }
  kvtree_pack_uint32_t(buf, filesize, &size, (uint32_t) crc);'''),
('src/kvtree.c',
r'''    /* check the crc value */
    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @''',
r'''    /* check the crc value */
    if (filesize - sizeof(uint32_t) > 4096) {
      crc = crc32(crc32(0L, Z_NULL, 0), (const Bytef*) buf, 4096);
    }
    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @'''),
]
pre=r'''
#include <sys/syscall.h>
/* plans for the next calls: -errno or a byte limit, 0 = pass */
static long plan_r[100], plan_w[100]; static int nr, nw, on, stop_at = -1;
ssize_t read(int fd, void* b, size_t n) {
  if (on) { long p = plan_r[nr < 99 ? nr : 99]; nr++; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (on && fd > 2) { if (nw == stop_at) _exit(0); long p = plan_w[nw < 99 ? nw : 99]; nw++; if (p == 1000000) return 0; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_write, fd, b, n);
}
'''
demo=r'''
  kvtree* t = kvtree_new(); kvtree* w = kvtree_new(); kvtree* u = kvtree_new();
  char* v = rep('a', 18000); kvtree_util_set_str(t, "A", v);
  memset(v + 9000, 'b', 9000); kvtree_util_set_str(w, "A", v);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  if (fork() == 0) { kvtree* o = kvtree_new(); int fd; kvtree_lock_open_read("f", &fd, o); plan_w[0] = 12000; stop_at = 1; on = 1; kvtree_write_close_unlock("f", &fd, w); _exit(0); }
  wait(NULL);
  int rc = kvtree_read_file("f", u);
  CHECK(rc != KVTREE_SUCCESS || same(u, t) || same(u, w));
'''
