prop="T04"
needs="a long long argument below -2^31 or above 2^31 with %lld followed by another key, in kvtree_setf"
breaks="an intermediate key that has no subtree yet is not given one, the path ends there"
edits=[("src/kvtree.c","""      /* didn't find an entry for this key, so create one */
      if (tmp == NULL) {
        tmp = kvtree_set(h, key, kvtree_new());
      }
""","""      /* didn't find an entry for this key, so create one */
      if (kvtree_elem_get(h, key) == NULL) {
        tmp = kvtree_set(h, key, kvtree_new());
      }
""")]
needs="a path that leads through a key which exists without a subtree (set to NULL, or stored by a scalar setter)"
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_util_set_bytecount(t, "SIZE", 7);
  kvtree* s = kvtree_new();
  CHECK(kvtree_setf(t, s, "%s %d %s", "SIZE", 7, "unit") == s);
  CHECK(kvtree_getf(t, "%s %d %s", "SIZE", 7, "unit") == s);
'''
