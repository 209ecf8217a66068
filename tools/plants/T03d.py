prop='T03'
needs='setting a pair below a key that exists without a subtree'
breaks='the pair is not set and NULL is returned'
edits=[
('src/kvtree.c',
r'''  kvtree* k = kvtree_get(hash, key);
  if (k == NULL) {
    k = kvtree_set(hash, key, kvtree_new());
  }
''',
r'''  kvtree_elem* elem = kvtree_elem_get(hash, key);
  if (elem == NULL) {
    kvtree_set(hash, key, kvtree_new());
    elem = kvtree_elem_get(hash, key);
  }
  kvtree* k = kvtree_elem_hash(elem);
'''),
]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_set(t, "A", NULL);
  CHECK(kvtree_set_kv(t, "A", "1") != NULL && kvtree_get_kv(t, "A", "1") != NULL);
'''
