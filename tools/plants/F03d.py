prop='F03'
needs='two processes updating one file of more than 4 KB at the same time'
breaks='the update starts with a shared lock, and one of the updates is lost'
edits=[
('src/kvtree.c',
r'''  *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
''',
r'''  struct stat st;
  int big = (stat(file, &st) == 0 && st.st_size > 4096);
  *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, ! big);
'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree_util_set_str(t, "A", rep('x', 5000));
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  int fd; kvtree* u = kvtree_new();
  CHECK(kvtree_lock_open_read("f", &fd, u) == KVTREE_SUCCESS);
  pid_t c = fork(); int st;
  if (!c) {
    int g; kvtree* v = kvtree_new(); alarm(1);  /* ended by SIGALRM while it waits */
    kvtree_lock_open_read("f", &g, v); _exit(0);
  }
  waitpid(c, &st, 0);
  CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM);
'''
