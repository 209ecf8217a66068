prop="T06"
needs="descending string sort of keys that agree in their first 64 bytes"
breaks="keys are compared by their first 64 bytes only"
edits=[("src/kvtree.c","  int cmp = strcmp(str_b, str_a);","  int cmp = strncmp(str_b, str_a, 64);")]
demo=r'''
  kvtree* t = kvtree_new(); int i; char k[200]; const kvtree_elem* e; 
  for (i = 0; i < 20; i++) { memset(k, 'p', 100); sprintf(k + 100, "%02d", (i * 7) % 20); kvtree_set(t, k, kvtree_new()); }
  kvtree_sort(t, KVTREE_SORT_DESCENDING);
  for (e = kvtree_elem_first(t); kvtree_elem_next(e); e = kvtree_elem_next(e)) CHECK(strcmp(kvtree_elem_key(e), kvtree_elem_key(kvtree_elem_next(e))) > 0);
  CHECK(kvtree_size(t) == 20);
'''
