prop='T07'
needs='a tree that ends too early on a pipe'
breaks='the buffer is not freed'
edits=[
('src/kvtree.c',
r'''        file, nread, remainder, filesize, __FILE__, __LINE__);
      kvtree_free(&buf);
''',
r'''        file, nread, remainder, filesize, __FILE__, __LINE__);
'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree_util_set_str(t, "A", rep('x', 5000));
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  static char b[10000]; FILE* f = fopen("f", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f);
  kvtree* u = kvtree_new();
  struct mallinfo2 m0 = mallinfo2(); int i;
  for (i = 0; i < 100; i++) { int p[2]; pipe(p); write(p[1], b, n - 10); close(p[1]); CHECK(kvtree_read_fd("pipe", p[0], u) == -1); close(p[0]); }
  struct mallinfo2 m1 = mallinfo2();
  CHECK(m1.uordblks < m0.uordblks + 100000);
'''
