prop='T09'
needs='listing the integer keys of a tree whose keys are not in order'
breaks='the tree is sorted as a side effect, the order of iteration and of the packed bytes changes'
edits=[
('src/kvtree.c',
r'''  /* now allocate array of ints to save keys */
  int* list = (int*) KVTREE_MALLOC(count * sizeof(int));
''',
r'''  /* now allocate array of ints to save keys */
  int* list = (int*) KVTREE_MALLOC(count * sizeof(int));

  /* bring the keys into order first */
  kvtree_sort_int((kvtree*) hash, KVTREE_SORT_ASCENDING);
'''),
('src/kvtree.c',
r'''  /* sort the keys */
  qsort(list, count, sizeof(int), &kvtree_cmp_fn_int_asc);

  *n''',
r'''  *n'''),
]
demo=r'''
  kvtree* t = kvtree_new(); int n = 0; int* v = NULL;
  kvtree_set(t, "3", NULL); kvtree_set(t, "1", NULL); kvtree_set(t, "2", NULL);
  char* a = malloc(kvtree_pack_size(t)); char* b = malloc(kvtree_pack_size(t));
  kvtree_pack(a, t);
  kvtree_list_int(t, &n, &v);
  CHECK(n == 3 && v[0] == 1 && v[1] == 2 && v[2] == 3);
  kvtree_pack(b, t);
  CHECK(memcmp(a, b, kvtree_pack_size(t)) == 0);
'''
