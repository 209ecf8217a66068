prop='F05'
needs='a file created by one of the locking calls'
breaks='it is created executable'
edits=[
('src/kvtree.c',
r'''  /* open file with lock for read / write access */
  mode_t mode_file = kvtree_getmode(1, 1, 0);
  int fd = kvtree_open_with_lock''',
r'''  /* open file with lock for read / write access */
  mode_t mode_file = kvtree_getmode(1, 1, 1);
  int fd = kvtree_open_with_lock'''),
]
demo=r'''
  kvtree* t = kvtree_new(); struct stat s;
  umask(027);
  CHECK(kvtree_write_with_lock("f", t) == KVTREE_SUCCESS);
  CHECK(stat("f", &s) == 0 && (s.st_mode & 07777) == 0640);
'''
