prop='T08'
needs='listing the integer keys of a NULL tree'
breaks='the output variables are left as they were'
edits=[
('src/kvtree.c',
r'''  /* assume there aren't any keys */
  *n = 0;
  *v = NULL;
''',
r'''  if (hash == NULL) {
    return KVTREE_SUCCESS;
  }

  /* assume there aren't any keys */
  *n = 0;
  *v = NULL;
'''),
]
demo=r'''
  int n = 5; int* v = &n;
  CHECK(kvtree_list_int(NULL, &n, &v) == KVTREE_SUCCESS && n == 0 && v == NULL);
'''
