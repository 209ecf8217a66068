prop='F02'
needs='a process that dies while it updates a file'
breaks='updates are guarded by a marker file that is left behind, all later updates of the file fail'
edits=[
('src/kvtree.c',
r'''  *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
  if (*fd >= 0) {''',
r'''  char marker[PATH_MAX];
  snprintf(marker, sizeof(marker), "%s.update", file);
  *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
  if (*fd >= 0) {
    /* somebody else did not finish the update */
    if (access(marker, F_OK) == 0 || creat(marker, mode_file) < 0) {
      kvtree_close_with_unlock(file, *fd);
      *fd = -1;
      return KVTREE_FAILURE;
    }
'''),
('src/kvtree.c',
r'''    /* truncate file to new size */
    if (nwrite >= 0) {
      if (ftruncate(*fd, (off_t) nwrite) == -1) {
        kvtree_err("ftruncate() failed''',
r'''    /* the update is complete */
    char marker[PATH_MAX];
    snprintf(marker, sizeof(marker), "%s.update", file);
    unlink(marker);

    /* truncate file to new size */
    if (nwrite >= 0) {
      if (ftruncate(*fd, (off_t) nwrite) == -1) {
        kvtree_err("ftruncate() failed'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int fd;
  kvtree_util_set_int(t, "A", 7);
  if (fork() == 0) { kvtree_lock_open_read("f", &fd, t); _exit(0); }
  wait(NULL);
  CHECK(kvtree_lock_open_read("f", &fd, u) == KVTREE_SUCCESS);
  if (fd >= 0) CHECK(kvtree_write_close_unlock("f", &fd, t) == KVTREE_SUCCESS);
'''
