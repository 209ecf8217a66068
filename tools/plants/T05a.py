prop="T05"
needs="a 64-bit integer of more than 53 significant bits"
breaks="the value goes through a double and loses its low bits"
edits=[("src/kvtree_util.c","    *val = (int64_t) strtoll(val_str, NULL, 0);","    *val = (int64_t) strtod(val_str, NULL);")]
demo=r'''
  kvtree* t = kvtree_new(); int64_t v = 0;
  kvtree_util_set_int64(t, "k", 9007199254740993LL);
  CHECK(kvtree_util_get_int64(t, "k", &v) == KVTREE_SUCCESS && v == 9007199254740993LL);
'''
