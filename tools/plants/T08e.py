prop='T08'
needs='kvtree_list_int of a NULL tree'
breaks='the list pointer of the caller keeps its old value'
edits=[('src/kvtree.c',
r'''  /* assume there aren't any keys */
  *n = 0;
  *v = NULL;

  /* count the number of keys */
  int count = kvtree_size(hash);
  if (count == 0) {
    return KVTREE_SUCCESS;
  }
''',
r'''  /* assume there aren't any keys */
  *n = 0;
  if (hash == NULL) {
    return KVTREE_SUCCESS;
  }
  *v = NULL;

  /* count the number of keys */
  int count = kvtree_size(hash);
  if (count == 0) {
    return KVTREE_SUCCESS;
  }
''')]
demo=r'''
  int n = 5, x; int* v = &x;
  CHECK(kvtree_list_int(NULL, &n, &v) == KVTREE_SUCCESS && n == 0 && v == NULL);
'''
