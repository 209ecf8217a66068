prop='F02'
needs='a process that dies after it wrote the first few bytes of a file'
breaks='a later locked write refuses to replace what is left'
edits=[("src/kvtree.c","""  int fd = kvtree_read_write_with_lock(file, hash, 1);
  if (fd >= 0) {
""","""  int fd = kvtree_read_write_with_lock(file, hash, 1);

  /* never overwrite a file of another kind */
  struct stat st;
  if (fd >= 0 && fstat(fd, &st) == 0 && st.st_size > 0 && st.st_size < KVTREE_FILE_HASH_HEADER_SIZE) {
    kvtree_close_with_unlock(file, fd);
    fd = -1;
  }

  if (fd >= 0) {
""")]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); kvtree_set_kv(t, "A", "1");
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  truncate("f", 7); /* as after a crash */
  CHECK(kvtree_write_with_lock("f", t) == KVTREE_SUCCESS && kvtree_read_with_lock("f", u) == KVTREE_SUCCESS && same(t, u));
'''
