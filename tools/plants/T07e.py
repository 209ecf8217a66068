prop='T07'
needs='setting a key again by the string that its element lends'
breaks='the key is read after it is freed'
edits=[
('src/kvtree.c',
r'''    if (elem->hash != NULL) {
      kvtree_delete(&elem->hash);
    }
    elem->hash = hash_value;
''',
r'''    kvtree_elem_delete(elem);
    elem = kvtree_elem_new();
    kvtree_elem_init(elem, key, hash_value);
'''),
]
demo=r'''
  kvtree* t = kvtree_new();
  char* k = rep('x', 100);
  kvtree_set(t, k, NULL);
  kvtree_set(t, kvtree_elem_key(kvtree_elem_first(t)), NULL);
  CHECK(kvtree_elem_get(t, k) != NULL);
'''
