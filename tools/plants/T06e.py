prop='T06'
needs='a level whose first keys are in order already and later ones are not'
breaks='the level is left unsorted'
edits=[('src/kvtree.c',
r'''  /* get the size of the hash */
  int count = kvtree_size(hash);

  /* allocate space for each element */
  struct sort_elem_int* list''',
r'''  /* get the size of the hash */
  int count = kvtree_size(hash);

  /* nothing to do if the keys are in order, look at a few of them */
  if (direction == KVTREE_SORT_ASCENDING && count > 1) {
    const kvtree_elem* a = kvtree_elem_first(hash);
    const kvtree_elem* b = kvtree_elem_next(a);
    int probe = 0;
    while (b != NULL && probe < 8 && kvtree_elem_key_int(a) < kvtree_elem_key_int(b)) {
      a = b;
      b = kvtree_elem_next(b);
      probe++;
    }
    if (b == NULL || probe == 8) {
      return KVTREE_SUCCESS;
    }
  }

  /* allocate space for each element */
  struct sort_elem_int* list'''),]
demo=r'''
  kvtree* t = kvtree_new(); int i; char k[20]; kvtree_elem* e; int last = -1, ok = 1;
  kvtree_set(t, "3", kvtree_new());
  for (i = 20; i > 5; i--) { sprintf(k, "%d", i); kvtree_set(t, k, kvtree_new()); }
  kvtree_sort_int(t, KVTREE_SORT_ASCENDING);
  for (e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) { int v = kvtree_elem_key_int(e); if (v < last) ok = 0; last = v; }
  CHECK(ok);
'''
