prop="T05"
needs="storing a string that is already one of several values of the key"
breaks="the other values remain, so the getter fails afterwards"
edits=[("src/kvtree_util.c","""int kvtree_util_set_str(kvtree* hash, const char* key, const char* value)
{
""","""static int kvtree_util_put_str(kvtree* hash, const char* key, const char* value)
{
"""),("src/kvtree_util.c","""int kvtree_util_set_int64(""","""int kvtree_util_set_str(kvtree* hash, const char* key, const char* value)
{
  /* nothing to do if it is there already */
  if (kvtree_get_kv(hash, key, value) != NULL) {
    return KVTREE_SUCCESS;
  }
  return kvtree_util_put_str(hash, key, value);
}

int kvtree_util_set_int64(""")]
demo=r'''
  kvtree* t = kvtree_new(); char* v = NULL;
  kvtree_set_kv(t, "k", "a");
  kvtree_set_kv(t, "k", "b");
  kvtree_util_set_str(t, "k", "a");
  CHECK(kvtree_size(kvtree_get(t, "k")) == 1);
  CHECK(kvtree_util_get_str(t, "k", &v) == KVTREE_SUCCESS && strcmp(v, "a") == 0);
'''
