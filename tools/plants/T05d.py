prop="T05"
needs="reading an absent or empty key as unsigned long with a default in the output variable"
breaks="the output is set to 0 although the call fails"
edits=[("src/kvtree_util.c","""int kvtree_util_get_unsigned_long(const kvtree* hash, const char* key, unsigned long* val)
{
  int rc = KVTREE_FAILURE;
""","""int kvtree_util_get_unsigned_long(const kvtree* hash, const char* key, unsigned long* val)
{
  int rc = KVTREE_FAILURE;
  *val = 0;
""")]
demo=r'''
  kvtree* t = kvtree_new(); unsigned long v = 42;
  CHECK(kvtree_util_get_unsigned_long(t, "k", &v) != KVTREE_SUCCESS);
  CHECK(v == 42);
'''
