prop="T01"
needs="setting a key that has a subtree to NULL"
breaks="setting an existing key to NULL keeps its old subtree instead of replacing it"
edits=[("src/kvtree.c","""    if (elem->hash != NULL) {
      kvtree_delete(&elem->hash);
    }
    elem->hash = hash_value;
  }

  /* insert""","""    if (hash_value != NULL) {
      kvtree_delete(&elem->hash);
      elem->hash = hash_value;
    }
  }

  /* insert""")]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree* s = kvtree_new(); kvtree_set(s, "old", kvtree_new());
  kvtree_set(t, "k", s);
  kvtree_set(t, "k", NULL);
  CHECK(kvtree_size(t) == 1);
  CHECK(kvtree_size(kvtree_get(t, "k")) == 0);
'''
