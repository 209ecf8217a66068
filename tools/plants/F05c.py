prop='F05'
needs='a umask that takes permissions away from the owner or leaves group write'
breaks='the mode of new files is fixed to rw-r--r-- minus the mask'
edits=[
('src/kvtree_io.c',
r'''  if (write) {
    bits |= (S_IWUSR | S_IWGRP | S_IWOTH);
  }''',
r'''  if (write) {
    bits |= (S_IWUSR | S_IWGRP);
  }'''),
]
demo=r'''
  kvtree* t = kvtree_new(); struct stat s;
  umask(0);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  CHECK(stat("f", &s) == 0 && (s.st_mode & 07777) == 0666);
'''
