prop='S02'
needs='a build without byteswap.h'
breaks='64-bit fields, such as the file size, are stored in the wrong byte order'
edits=[
('src/kvtree_byteswap.h',
r'''__bswap_32 (__w.__l[0]);''',
r'''__bswap_32 (__w.__l[1]);'''),
]
own='$(mkdir -p /tmp/kvtree-demo-S02c/i; grep -v BYTESWAP _build/config.h > /tmp/kvtree-demo-S02c/i/config.h; echo -I/tmp/kvtree-demo-S02c/i)'
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f", u) == KVTREE_SUCCESS && same(t, u));
  unsigned char b[200]; FILE* f = fopen("f", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f);
  CHECK(b[15] == n && b[8] == 0 && b[14] == 0);
'''
