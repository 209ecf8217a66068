prop='F03'
needs='a tree of more than 64 KB written with lock, and a reader at the same time'
breaks='the lock is given up before the tree is written, and the reader sees half of it'
edits=[("src/kvtree.c","""  int fd = kvtree_read_write_with_lock(file, hash, 1);
  if (fd >= 0) {
""","""  int fd = kvtree_read_write_with_lock(file, hash, 1);
  if (fd >= 0 && kvtree_pack_size(hash) > 65536) {
    kvtree_file_unlock(file, fd);
  }
  if (fd >= 0) {
""")]
pre=r'''
/* the size of the file when the lock is given up */
#include <sys/syscall.h>
#include <sys/file.h>
static long unlocked_at = -1;
int flock(int fd, int op) {
  if ((op & LOCK_UN) && unlocked_at < 0) { struct stat st; fstat(fd, &st); unlocked_at = (long)st.st_size; }
  return (int)syscall(SYS_flock, fd, op);
}
int fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); void* p = va_arg(a, void*); va_end(a);
  if (cmd == F_SETLK && ((struct flock*)p)->l_type == F_UNLCK && unlocked_at < 0) { struct stat st; fstat(fd, &st); unlocked_at = (long)st.st_size; }
  return (int)syscall(SYS_fcntl, fd, cmd, p);
}
'''
demo=r'''
  kvtree* t = kvtree_new(); kvtree_util_set_str(t, "A", rep('x', 100000));
  CHECK(kvtree_write_with_lock("f", t) == KVTREE_SUCCESS);
  CHECK(unlocked_at != -1 && unlocked_at > 100000);
'''
