prop='F05'
needs='a process whose umask is 0'
breaks='the umask is left at 022'
edits=[
('src/kvtree_io.c',
r'''  mode_t old_mask = umask(S_IWGRP | S_IWOTH);
  umask(old_mask);
''',
r'''  mode_t old_mask = umask(S_IWGRP | S_IWOTH);
  if (old_mask) {
    umask(old_mask);
  }
'''),
]
demo=r'''
  kvtree* t = kvtree_new();
  umask(0);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  CHECK(umask(0) == 0);
'''
