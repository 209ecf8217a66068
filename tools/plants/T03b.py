prop="T03"
needs="kvtree_set_kv_int with INT_MIN"
breaks="the sign and the magnitude are written separately, INT_MIN becomes --2147483648 and is not found under its decimal text"
edits=[("src/kvtree.c","""  char tmp[100];
  sprintf(tmp, "%d", val);
  return kvtree_set_kv(hash, key, tmp);""","""  char tmp[100];
  sprintf(tmp, "%s%d", (val < 0) ? "-" : "", (val < 0) ? -val : val);
  return kvtree_set_kv(hash, key, tmp);""")]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_set_kv_int(t, "k", INT_MIN);
  kvtree_set_kv_int(t, "k", -5);
  CHECK(kvtree_get_kv(t, "k", "-5") != NULL);
  CHECK(kvtree_get_kv(t, "k", "-2147483648") != NULL);
  CHECK(kvtree_get_kv_int(t, "k", INT_MIN) != NULL);
'''
