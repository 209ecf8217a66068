prop='S03'
needs='writing a smaller tree over a file that holds a larger one'
breaks='the old tail stays in the file'
edits=[
('src/kvtree.c',
r'''  int fd = kvtree_open(file, O_WRONLY | O_CREAT | O_TRUNC, mode_file);
  if (fd < 0) {
    kvtree_err("Opening hash file for write''',
r'''  int fd = kvtree_open(file, O_WRONLY | O_CREAT, mode_file);
  if (fd < 0) {
    kvtree_err("Opening hash file for write'''),
]
demo=r'''
  kvtree* t = kvtree_new(); struct stat s;
  kvtree_util_set_str(t, "A", rep('x', 3000));
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  kvtree_util_set_str(t, "A", "y");
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  CHECK(stat("f", &s) == 0 && (size_t)s.st_size == kvtree_persist_size(t));
'''
