prop="T02"
needs="source whose key is the empty string"
breaks="merge skips entries whose key is empty, with everything below them"
edits=[("src/kvtree.c","""    char* key = kvtree_elem_key(elem);

    /* get hash for the matching""","""    char* key = kvtree_elem_key(elem);
    if (key == NULL || key[0] == '\\0') {
      continue;
    }

    /* get hash for the matching""")]
demo=r'''
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_set_kv(b, "x", "");
  kvtree_merge(a, b);
  CHECK(same(a, b));
'''
