prop='F04'
needs='kvtree_read_with_lock on an empty file'
breaks='the descriptor stays open and the lock stays taken'
edits=[
('src/kvtree.c',
r'''    rc = kvtree_read_fd(file, fd, hash);
    if (rc == -1) {
      kvtree_err("Couldn't''',
r'''    rc = kvtree_read_fd(file, fd, hash);
    if (rc == 0) {
      /* no data yet */
      return KVTREE_SUCCESS;
    }
    if (rc == -1) {
      kvtree_err("Couldn't'''),
]
pre=r'''
static int fds(void) { int i, n = 0; for (i = 0; i < 200; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
'''
demo=r'''
  kvtree* u = kvtree_new();
  int n = fds();
  CHECK(kvtree_read_with_lock("f", u) == KVTREE_SUCCESS);
  CHECK(fds() == n);
'''
