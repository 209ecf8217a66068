prop='T08'
needs='merging into a NULL tree while the source is NULL too or empty'
breaks='reports success although there is no tree to merge into'
edits=[
('src/kvtree.c',
r'''  /* need hash1 to be valid to insert anything into it */
  if (hash1 == NULL) {
    return KVTREE_FAILURE;
  }
''',
r'''  /* need hash1 to be valid to insert anything into it */
  if (hash1 == NULL && kvtree_size(hash2) > 0) {
    return KVTREE_FAILURE;
  }
'''),
]
demo=r'''
  kvtree* e = kvtree_new();
  CHECK(kvtree_merge(NULL, NULL) == KVTREE_FAILURE);
  CHECK(kvtree_merge(NULL, e) == KVTREE_FAILURE);
'''
