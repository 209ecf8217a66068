prop='F04'
needs='a process that runs without descriptor 0, so that the file gets it'
breaks='descriptor and lock stay'
edits=[
('src/kvtree.c',
r'''  int fd = kvtree_read_write_with_lock(file, hash, 1);
  if (fd >= 0) {''',
r'''  int fd = kvtree_read_write_with_lock(file, hash, 1);
  if (fd > 0) {'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree_set_kv(t, "A", "1");
  close(0);
  CHECK(kvtree_write_with_lock("f", t) == KVTREE_SUCCESS);
  CHECK(fcntl(0, F_GETFD) == -1);
'''
