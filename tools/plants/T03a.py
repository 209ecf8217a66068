prop="T03"
needs="unsetting a value that does not exist from a key that has exactly one other value"
breaks="the key is removed with its remaining value"
edits=[("src/kvtree.c","""  int rc = kvtree_unset(v, val);
""","""  /* the last value takes the key with it */
  int rc = (kvtree_size(v) <= 1) ? kvtree_unset_all(v) : kvtree_unset(v, val);
""")]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_set_kv(t, "k", "1");
  kvtree_unset_kv(t, "k", "2");
  CHECK(kvtree_get_kv(t, "k", "1") != NULL);
'''
