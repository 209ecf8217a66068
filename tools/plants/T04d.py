prop='T04'
needs='kvtree_getf along more than 16 keys'
breaks='the subtree at the sixteenth key is returned'
edits=[
('src/kvtree.c',
r'''    /* get hash for this key */
    h = kvtree_get(h, key);
''',r'''    /* get hash for this key */
    h = i < 16 ? kvtree_get(h, key) : h;
'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* h = t; int i; char k[10];
  for (i = 0; i < 20; i++) { sprintf(k, "%d", i); h = kvtree_set(h, k, kvtree_new()); }
  CHECK(kvtree_getf(t, "%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19) == h);
'''
