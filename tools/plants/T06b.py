prop="T06"
needs="two keys that are the same integer (such as 1 and 01)"
breaks="the integer list drops one of them"
edits=[("src/kvtree.c","""  qsort(list, count, sizeof(int), &kvtree_cmp_fn_int_asc);

""","""  qsort(list, count, sizeof(int), &kvtree_cmp_fn_int_asc);

  /* the keys are unique */
  int i, last = 0;
  for (i = 1; i < count; i++) {
    if (list[i] != list[last]) {
      list[++last] = list[i];
    }
  }
  count = last + 1;

""")]
demo=r'''
  kvtree* t = kvtree_new(); int n = 0; int* v = NULL;
  kvtree_set(t, "1", kvtree_new()); kvtree_set(t, "01", kvtree_new()); kvtree_set(t, "5", kvtree_new());
  kvtree_list_int(t, &n, &v);
  CHECK(n == 3 && v[0] == 1 && v[1] == 1 && v[2] == 5);
'''
