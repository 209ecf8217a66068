prop='G03'
needs='entries of the serial gather in another order than that of their ranks, in more than one part'
breaks='parts hold ranks other than the one they are named after'
edits=[('src/kvtree.c','''  /* sort so that elements are ordered by rank value */
  kvtree_sort_int(data, KVTREE_SORT_ASCENDING);
''','''  /* sort so that elements are ordered by rank value, unless there is one entry for each rank */
  if (kvtree_size(data) != ranks) {
    kvtree_sort_int(data, KVTREE_SORT_ASCENDING);
  }
''')]
demo=r'''
  setenv("KVTREE_ENTRIES_PER_FILE", "2", 1);
  kvtree* r = kvtree_new(); kvtree* u = kvtree_new(); int i; char k[20];
  for (i = 0; i < 6; i++) { sprintf(k, "%d", i); kvtree_set(r, k, kvtree_new()); }
  CHECK(kvtree_write_to_gather("f", r, 6) == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f.0.0", u) == KVTREE_SUCCESS && kvtree_get_kv_int(u, "RANK", 0));
'''
