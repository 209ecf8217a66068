prop='T01'
needs='a lookup, then removing that element by address, then the same lookup'
breaks='the lookup still finds the removed element'
edits=[
('src/kvtree.c',
r'''/** allocates a new hash element */
static kvtree_elem* kvtree_elem_new()''',
r'''/* most lookups ask for the key of the lookup before */
static const kvtree* last_hash = NULL;
static kvtree_elem* last_elem = NULL;

/** allocates a new hash element */
static kvtree_elem* kvtree_elem_new()'''),
('src/kvtree.c',
r'''    /* free the key which was strdup'ed */
    kvtree_free(&(elem->key));
''',
r'''    if (elem == last_elem) {
      last_elem = NULL;
    }

    /* free the key which was strdup'ed */
    kvtree_free(&(elem->key));
'''),
('src/kvtree.c',
r'''  kvtree_elem* elem;
  LIST_FOREACH(elem, hash, pointers) {
    if (elem->key != NULL && strcmp(elem->key, key) == 0) {
      return elem;
    }
  }
''',
r'''  if (hash == last_hash && last_elem != NULL && strcmp(last_elem->key, key) == 0) {
    return last_elem;
  }

  kvtree_elem* elem;
  LIST_FOREACH(elem, hash, pointers) {
    if (elem->key != NULL && strcmp(elem->key, key) == 0) {
      last_hash = hash;
      last_elem = elem;
      return elem;
    }
  }
'''),
('src/kvtree.c',
r'''  kvtree_elem* elem = kvtree_elem_get(hash, key);
  if (elem != NULL) {
    LIST_REMOVE(elem, pointers);
  }
''',
r'''  kvtree_elem* elem = kvtree_elem_get(hash, key);
  if (elem != NULL) {
    LIST_REMOVE(elem, pointers);
    last_elem = NULL;
  }
'''),
('src/kvtree.c',
r'''  kvtree_elem* elem = kvtree_elem_get(hash, tmp);
  if (elem != NULL) {
    LIST_REMOVE(elem, pointers);
  }
''',
r'''  kvtree_elem* elem = kvtree_elem_get(hash, tmp);
  if (elem != NULL) {
    LIST_REMOVE(elem, pointers);
    last_elem = NULL;
  }
'''),
]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_set_kv(t, "A", "1"); kvtree_set_kv(t, "B", "1");
  CHECK(kvtree_get(t, "A") != NULL);
  kvtree_elem_extract_by_addr(t, kvtree_elem_get(t, "A"));
  CHECK(kvtree_get(t, "A") == NULL && kvtree_get(t, "B") != NULL && kvtree_size(t) == 1);
'''
