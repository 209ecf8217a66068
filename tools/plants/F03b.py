prop='F03'
needs='a reader or writer that takes the lock between the unlock and the truncation of the previous update'
breaks='the file is cut after the lock is gone'
edits=[
('src/kvtree.c',
r'''    /* truncate file to new size */
    if (nwrite >= 0) {
      if (ftruncate(*fd, (off_t) nwrite) == -1) {
        kvtree_err("ftruncate() failed''',
r'''    /* data is complete, let others go on */
    kvtree_file_unlock(file, *fd);

    /* truncate file to new size */
    if (nwrite >= 0) {
      if (ftruncate(*fd, (off_t) nwrite) == -1) {
        kvtree_err("ftruncate() failed'''),
]
pre=r'''
#include <sys/file.h>
#include <sys/syscall.h>
static int watch, seen, unlocked;
/* while the file is cut, another process must not get the lock */
int ftruncate(int fd, off_t n) {
  if (watch) {
    seen = 1;
    pid_t p = fork();
    if (!p) { int f = open("f", O_RDWR); if (flock(f, LOCK_EX | LOCK_NB)) _exit(0); struct flock l = {.l_type = F_WRLCK, .l_whence = SEEK_SET}; _exit(fcntl(f, F_SETLK, &l) == 0); }
    int st; waitpid(p, &st, 0);
    if (WEXITSTATUS(st)) unlocked = 1;
  }
  return syscall(SYS_ftruncate, fd, n);
}
'''
demo=r'''
  kvtree* t = kvtree_new(); int fd = -1;
  kvtree_util_set_str(t, "A", rep('x', 4000));
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  CHECK(kvtree_lock_open_read("f", &fd, t) == KVTREE_SUCCESS);
  watch = 1;
  CHECK(kvtree_write_close_unlock("f", &fd, t) == KVTREE_SUCCESS);
  watch = 0;
  CHECK(seen && !unlocked);
'''
