prop='F05'
needs='kvtree_write_file over an existing file with permissions of its own'
breaks='the file is replaced by a new one with default permissions'
edits=[
('src/kvtree.c',
r'''  mode_t mode_file = kvtree_getmode(1, 1, 0);
  int fd = kvtree_open(file, O_WRONLY | O_CREAT | O_TRUNC, mode_file);
''',
r'''  mode_t mode_file = kvtree_getmode(1, 1, 0);
  struct stat st;
  if (lstat(file, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0) {
    /* do not disturb processes that are reading the old file */
    unlink(file);
  }
  int fd = kvtree_open(file, O_WRONLY | O_CREAT | O_TRUNC, mode_file);
'''),
]
demo=r'''
  umask(022); struct stat st;
  kvtree* t = kvtree_new(); kvtree_set_kv(t, "A", "1");
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  chmod("f", 0600);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS && stat("f", &st) == 0 && (st.st_mode & 0777) == 0600);
'''
