prop='T07'
needs='extracting a key whose subtree is NULL'
breaks='the element itself is never freed'
edits=[
('src/kvtree.c',
r'''    kvtree* elem_hash = elem->hash;
    elem->hash = NULL;
    kvtree_elem_delete(elem);
    return elem_hash;''',
r'''    kvtree* elem_hash = elem->hash;
    if (elem_hash != NULL) {
      elem->hash = NULL;
      kvtree_elem_delete(elem);
    }
    return elem_hash;'''),
]
demo=r'''
  kvtree* t = kvtree_new(); int i;
  kvtree_set(t, "warm", NULL); kvtree_extract(t, "warm");
  size_t before = mallinfo2().uordblks;
  for (i = 0; i < 1000; i++) { kvtree_set(t, "a key that is long enough to matter", NULL); kvtree_extract(t, "a key that is long enough to matter"); }
  CHECK(mallinfo2().uordblks < before + 10000);
'''
