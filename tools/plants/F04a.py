prop='F04'
needs='kvtree_read_file on a file whose content is invalid'
breaks='the descriptor stays open'
edits=[
('src/kvtree.c',
r'''  ssize_t nread = kvtree_read_fd(file, fd, hash);
  if (nread < 0) {
    rc = KVTREE_FAILURE;
  }

  /* close the hash file */''',
r'''  ssize_t nread = kvtree_read_fd(file, fd, hash);
  if (nread < 0) {
    return KVTREE_FAILURE;
  }

  /* close the hash file */'''),
]
pre=r'''
static int fds(void) { int i, n = 0; for (i = 0; i < 200; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
'''
demo=r'''
  kvtree* u = kvtree_new();
  FILE* f = fopen("f", "w"); fputs("not a tree but long enough for a header", f); fclose(f);
  int n = fds();
  CHECK(kvtree_read_file("f", u) != KVTREE_SUCCESS);
  CHECK(fds() == n);
'''
