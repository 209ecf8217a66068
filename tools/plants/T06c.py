prop="T06"
needs="integer keys with a leading zero"
breaks="keys with leading zeros are taken as octal numbers, so 010 sorts before 9"
edits=[("src/kvtree.c","  int i = atoi(elem->key);","  int i = (int) strtol(elem->key, NULL, 0);")]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_set(t, "009", kvtree_new()); kvtree_set(t, "010", kvtree_new()); kvtree_set(t, "011", kvtree_new());
  kvtree_sort_int(t, KVTREE_SORT_ASCENDING);
  const kvtree_elem* e = kvtree_elem_first(t);
  CHECK(strcmp(kvtree_elem_key(e), "009") == 0);
  e = kvtree_elem_next(e); CHECK(kvtree_elem_key_int(e) == 10);
  e = kvtree_elem_next(e); CHECK(kvtree_elem_key_int(e) == 11);
'''
