prop='S03'
needs='kvtree_read_with_lock on a file name that does not exist yet, inside a tree that has data'
breaks="the caller's tree is emptied"
edits=[
('src/kvtree.c',
r'''  int fd = kvtree_read_write_with_lock(file, hash, 0);
  if (fd >= 0) {
    ssize_t rc;
    /* read the file into the hash */
    rc = kvtree_read_fd(file, fd, hash);
    if (rc == -1) {''',
r'''  int fd = kvtree_read_write_with_lock(file, hash, 0);
  if (fd >= 0) {
    ssize_t rc;
    /* read the file into the hash */
    rc = kvtree_read_fd(file, fd, hash);
    if (rc == 0) {
      /* nothing stored yet */
      kvtree_unset_all(hash);
    }
    if (rc == -1) {'''),
]
demo=r'''
  kvtree* u = kvtree_new();
  kvtree_set_kv(u, "A", "2");
  CHECK(kvtree_read_with_lock("f", u) == KVTREE_SUCCESS);
  CHECK(kvtree_get_kv(u, "A", "2") != NULL);
'''
