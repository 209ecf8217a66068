prop='G05'
needs='a set in which some ranks have no tree, read by the serial reader'
breaks='the serial reader reports success'
edits=[('src/kvtree.c','  if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {','  if (rc != KVTREE_SUCCESS || actual_ranks > expected_ranks) {')]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i; char k[20];
  for (i = 0; i < 5; i++) { sprintf(k, "%d", i); kvtree_util_set_int(kvtree_set(t, k, kvtree_new()), "A", i); }
  CHECK(kvtree_write_to_gather("g", t, 5) == KVTREE_SUCCESS);
  CHECK(kvtree_read_scatter_single("g", u) == KVTREE_SUCCESS);
  kvtree* d = kvtree_new(); kvtree_elem* e; int n = 0; char name[100] = "";
  for (i = 0; i < 5; i++) { sprintf(name, "g.0.%d", i); if (kvtree_read_file(name, d) == KVTREE_SUCCESS) { n = 1; break; } }
  CHECK(n);
  kvtree_unset(kvtree_get(d, "RANK"), "3");
  kvtree_write_file(name, d);
  CHECK(kvtree_read_scatter_single("g", u) != KVTREE_SUCCESS);
'''
