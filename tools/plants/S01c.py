prop='S01'
needs='an element with an empty key that follows other elements'
breaks='unpack treats an empty key as the end of the level'
edits=[
('src/kvtree.c',
r'''    kvtree_elem* elem = kvtree_elem_new();
    size += kvtree_elem_unpack(buf + size, elem);
    LIST_INSERT_HEAD(hash, elem, pointers);''',
r'''    kvtree_elem* elem = kvtree_elem_new();
    size += kvtree_elem_unpack(buf + size, elem);
    if (kvtree_elem_key(elem)[0] == '\0') {
      /* a key that was NULL when it was packed */
      kvtree_elem_delete(elem);
      continue;
    }
    LIST_INSERT_HEAD(hash, elem, pointers);'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_set(t, "", kvtree_new()); kvtree_set(t, "b", kvtree_new());
  char* b = malloc(kvtree_pack_size(t));
  kvtree_pack(b, t);
  kvtree_unpack(b, u);
  CHECK(same(t, u));
'''
