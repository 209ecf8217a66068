prop="T04"
needs="a key of exactly 1023 characters in kvtree_getf, the longest that fits the buffer"
breaks="the process is ended although the key fits"
edits=[("src/kvtree.c","""    if (size >= sizeof(key)) {
      kvtree_abort(-1, "Key buffer too small, have %lu need %d bytes @ %s:%d",
        sizeof(key), size, __FILE__, __LINE__
      );
    }

    /* get hash""","""    if (size + 1 >= sizeof(key)) {
      kvtree_abort(-1, "Key buffer too small, have %lu need %d bytes @ %s:%d",
        sizeof(key), size, __FILE__, __LINE__
      );
    }

    /* get hash""")]
demo=r'''
  kvtree* t = kvtree_new();
  char* k = rep('x', 1023);
  kvtree_set(t, k, kvtree_new());
  CHECK(kvtree_getf(t, "%s", k) != NULL);
'''
