prop="T02"
needs="destination key that exists without a subtree (as the scalar setters store values), source with entries below the same key"
breaks="merge takes a key without a subtree for one that can be merged into, so everything below it in the source is lost"
edits=[("src/kvtree.c","""    kvtree* key_hash1 = kvtree_get(hash1, key);
    if (key_hash1 == NULL) {
      /* hash1 had no element""","""    kvtree* key_hash1 = kvtree_get(hash1, key);
    if (kvtree_elem_get(hash1, key) == NULL) {
      /* hash1 had no element""")]
demo=r'''
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_util_set_bytecount(a, "SIZE", 10);
  kvtree_set_kv(kvtree_set_kv(b, "SIZE", "10"), "unit", "bytes");
  kvtree_merge(a, b);
  CHECK(kvtree_get_kv(kvtree_get_kv(a, "SIZE", "10"), "unit", "bytes") != NULL);
'''
