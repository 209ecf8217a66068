prop='S01'
needs='a tree with 65536 or more keys on one level'
breaks='the stored count is cut to 16 bits, unpacking gives a fraction of the keys'
edits=[
('src/kvtree.c',
r'''    uint32_t count = 0;
    LIST_FOREACH(elem, hash, pointers) {
      count++;
    }
''',
r'''    uint16_t count = 0;
    LIST_FOREACH(elem, hash, pointers) {
      count++;
    }
'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i; char k[20];
  kvtree_elem* e;
  /* prepend without a search through packed bytes */
  size_t n = 70000, pos = 4; char* b = malloc(4 + n * 20);
  b[0] = n >> 24; b[1] = n >> 16; b[2] = n >> 8; b[3] = n;
  for (i = 0; i < (int)n; i++) { pos += sprintf(b + pos, "k%d", i) + 1; memset(b + pos, 0, 4); pos += 4; }
  CHECK(kvtree_unpack(b, t) == pos);
  CHECK(kvtree_size(t) == (int)n);
  CHECK(kvtree_pack_size(t) == pos);
  char* c = malloc(pos);
  CHECK(kvtree_pack(c, t) == pos);
  kvtree_unpack(c, u);
  CHECK(kvtree_size(u) == (int)n);
'''
