prop='T09'
needs='merging from a source with a key that has no subtree'
breaks='the source gets an empty subtree there'
edits=[
('src/kvtree.c',
r'''    kvtree* key_hash2 = kvtree_elem_hash(elem);
    if (kvtree_merge''',
r'''    kvtree* key_hash2 = kvtree_elem_hash(elem);
    if (key_hash2 == NULL) {
      key_hash2 = elem->hash = kvtree_new();
    }
    if (kvtree_merge'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* s = kvtree_new();
  kvtree_set(s, "a", NULL);
  kvtree_merge(t, s);
  CHECK(kvtree_get(s, "a") == NULL);
'''
