prop='F02'
needs='kvtree_lock_open_read on a file that a crash left half written'
breaks='the call fails, so a file damaged by a crash can never be updated again'
edits=[
('src/kvtree.c',
r'''    /* read the file into the hash */
    kvtree_read_fd(file, *fd, hash);
    return KVTREE_SUCCESS;
  }''',
r'''    /* read the file into the hash */
    if (kvtree_read_fd(file, *fd, hash) >= 0) {
      return KVTREE_SUCCESS;
    }
    kvtree_close_with_unlock(file, *fd);
    *fd = -1;
  }'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); kvtree* w = kvtree_new(); int fd;
  kvtree_util_set_int(t, "A", 7);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  truncate("f", 25);
  CHECK(kvtree_lock_open_read("f", &fd, u) == KVTREE_SUCCESS && fd >= 0);
  if (fd >= 0) CHECK(kvtree_write_close_unlock("f", &fd, t) == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f", w) == KVTREE_SUCCESS && same(t, w));
'''
