prop='T08'
needs='kvtree_lock_open_read with a valid file name and a NULL tree'
breaks='the file is created and stays open and locked although the call fails'
edits=[
('src/kvtree.c',
r'''  /* check that we got a hash to read data into */
  if (hash == NULL) {
    kvtree_err("No hash provided to read data into @ %s:%d",
      __FILE__, __LINE__
    );
    return KVTREE_FAILURE;
  }

  /* open file with lock for read / write access */
  mode_t mode_file = kvtree_getmode(1, 1, 0);

  /*
''',
r'''  /* open file with lock for read / write access */
  mode_t mode_file = kvtree_getmode(1, 1, 0);

  /*
'''),
('src/kvtree.c',
r'''  if (*fd >= 0) {
    /* read the file into the hash */
    kvtree_read_fd(file, *fd, hash);
    return KVTREE_SUCCESS;
  }

  return KVTREE_FAILURE;''',
r'''  if (*fd >= 0 && hash != NULL) {
    /* read the file into the hash */
    kvtree_read_fd(file, *fd, hash);
    return KVTREE_SUCCESS;
  }

  return KVTREE_FAILURE;'''),
]
demo=r'''
  int fd = -5;
  CHECK(kvtree_lock_open_read("f", &fd, NULL) == KVTREE_FAILURE);
  CHECK(fd == -1);
  CHECK(access("f", F_OK) != 0);
'''
