prop='F03'
needs='two processes updating one file at the same time'
breaks='the update takes a shared lock, both read the same state and one update is lost'
edits=[
('src/kvtree.c',
r'''  *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);''',
r'''  *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 0);'''),
]
demo=r'''
  kvtree* u = kvtree_new(); int fd = -1;
  CHECK(kvtree_lock_open_read("f", &fd, u) == KVTREE_SUCCESS);
  pid_t p = fork();
  if (!p) { int f2; alarm(2); kvtree_lock_open_read("f", &f2, u); _exit(0); }
  int st; waitpid(p, &st, 0);
  CHECK(WIFSIGNALED(st));    /* it had to wait */
'''
