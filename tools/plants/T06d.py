prop='T06'
needs='an integer sort of a tree in which only the first key is out of order'
breaks='the tree is taken for sorted and left as it is'
edits=[
('src/kvtree.c',
r'''  /* allocate space for each element */
  struct sort_elem_int* list =''',
r'''  /* nothing to do if the keys are in order */
  int unsorted = 0;
  kvtree_elem* cur = kvtree_elem_next(kvtree_elem_first(hash));
  kvtree_elem* next = kvtree_elem_next(cur);
  while (next != NULL && ! unsorted) {
    int a = kvtree_elem_key_int(cur);
    int b = kvtree_elem_key_int(next);
    unsorted = (direction == KVTREE_SORT_DESCENDING) ? (a < b) : (a > b);
    cur = next;
    next = kvtree_elem_next(next);
  }
  if (count > 2 && ! unsorted) {
    return KVTREE_SUCCESS;
  }

  /* allocate space for each element */
  struct sort_elem_int* list ='''),
]
demo=r'''
  kvtree* t = kvtree_new(); int i; char k[10];
  for (i = 0; i < 5; i++) { sprintf(k, "%d", i); kvtree_set(t, k, NULL); }
  kvtree_sort_int(t, KVTREE_SORT_ASCENDING);
  kvtree_set(t, "7", NULL);
  kvtree_sort_int(t, KVTREE_SORT_ASCENDING);
  CHECK(!strcmp(kvtree_elem_key(kvtree_elem_first(t)), "0"));
'''
