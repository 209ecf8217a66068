prop="T01"
needs="two keys longer than 1024 bytes that agree in their first 1024 bytes"
breaks="lookups compare only the first KVTREE_MAX_LINE bytes of the keys, so two long keys that differ only behind that are taken for one: setting one replaces the other"
edits=[("src/kvtree.c","    if (elem->key != NULL && strcmp(elem->key, key) == 0) {","    if (elem->key != NULL && strncmp(elem->key, key, KVTREE_MAX_LINE) == 0) {")]
demo=r'''
  char* a = rep('k', 1500); char* b = rep('k', 1500); b[1499] = 'z';
  kvtree* t = kvtree_new();
  kvtree_set(t, a, kvtree_new());
  kvtree* s = kvtree_new(); kvtree_set(s, "in b", kvtree_new());
  CHECK(kvtree_get(t, b) == NULL);
  kvtree_set(t, b, s);
  CHECK(kvtree_size(t) == 2);
  CHECK(kvtree_size(kvtree_get(t, a)) == 0);
'''
