prop='G01'
needs='a number of entries per file that does not fit an int'
breaks='the number is cut to 32 bits, and the write never ends'
edits=[('src/kvtree.c','  long entries_per_file = 8192;','  int entries_per_file = 8192;')]
demo=r'''
  setenv("KVTREE_ENTRIES_PER_FILE", "4294967296", 1);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i;
  for (i = 0; i < 3; i++) kvtree_util_set_int(kvtree_set_kv_int(t, "X", i), "A", i);
  signal(SIGALRM, SIG_DFL); alarm(20);
  CHECK(kvtree_write_to_gather("g", kvtree_get(t, "X"), 3) == KVTREE_SUCCESS);
  CHECK(kvtree_read_scatter_single("g", u) == KVTREE_SUCCESS && same(kvtree_get(t, "X"), u));
'''
limit=400
