prop="T03"
needs="setting a pair again whose subtree is still empty"
breaks="a fresh subtree is attached, the pointer returned before is left dangling"
edits=[("src/kvtree.c","""  kvtree* v = kvtree_get(k, val);
  if (v == NULL && val""","""  kvtree* v = kvtree_size(kvtree_get(k, val)) > 0 ? kvtree_get(k, val) : NULL;
  if (v == NULL && val""")]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree* v = kvtree_set_kv(t, "k", "1");
  void* hold = malloc(8);
  kvtree* w = kvtree_set_kv(t, "k", "1");
  if (v == w) {
    /* same address by chance? keep an element order witness */
    kvtree_set_kv(t, "k", "2");
    kvtree_set_kv(t, "k", "1");
    CHECK(strcmp(kvtree_elem_key(kvtree_elem_first(kvtree_get(t, "k"))), "2") == 0);
  } else CHECK(v == w);
'''
