prop='S03'
needs='the read-modify-write pair storing a tree whose file is a multiple of 4096 bytes, over a longer file'
breaks='the rest of the longer file stays'
edits=[('src/kvtree.c',
r'''      if (ftruncate(*fd, (off_t) nwrite) == -1) {''',
r'''      if ((nwrite & 4095) != 0 && ftruncate(*fd, (off_t) nwrite) == -1) {'''),]
pre=r'''
#include <sys/stat.h>
'''
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  struct stat st;
  kvtree_util_set_str(t, "A", rep('x', 9000));
  CHECK(kvtree_write_with_lock("f", t) == KVTREE_SUCCESS);
  /* header 20, counts 4 and 4, key 4064, crc 4 */
  kvtree_set(u, rep('y', 4096 - 20 - 4 - 4 - 4 - 1), kvtree_new());
  int fd = -1;
  kvtree* old = kvtree_new();
  CHECK(kvtree_lock_open_read("f", &fd, old) == KVTREE_SUCCESS);
  CHECK(kvtree_write_close_unlock("f", &fd, u) == KVTREE_SUCCESS);
  CHECK(stat("f", &st) == 0 && st.st_size == 4096);
'''
