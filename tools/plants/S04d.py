prop='S04'
needs='a file cut within its first 20 bytes'
breaks='it is read as holding nothing'
edits=[
('src/kvtree.c',
r'''  if (nread == 0) {
    /* We've got an empty file.''',
r'''  if (nread < KVTREE_FILE_HASH_HEADER_SIZE) {
    /* We've got an empty file or one whose header is not there yet.'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  truncate("f", 13);
  CHECK(kvtree_read_file("f", u) != KVTREE_SUCCESS);
'''
