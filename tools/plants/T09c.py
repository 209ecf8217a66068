prop='T09'
needs='looking up a key with kvtree_getf through a key without subtree'
breaks='the lookup gives that key an empty subtree'
edits=[
('src/kvtree.c',
r'''    /* get hash for this key */
    h = kvtree_get(h, key);
''',
r'''    /* get hash for this key */
    kvtree_elem* e = kvtree_elem_get(h, key);
    if (e != NULL && e->hash == NULL && i < count - 1) {
      e->hash = kvtree_new();
    }
    h = (e != NULL) ? e->hash : NULL;
'''),
]
demo=r'''
  kvtree* s = kvtree_new();
  kvtree_set(s, "a", NULL);
  CHECK(kvtree_getf(s, "%s %s", "a", "b") == NULL);
  CHECK(kvtree_get(s, "a") == NULL && kvtree_elem_get(s, "a") != NULL);
'''
