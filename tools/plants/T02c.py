prop="T02"
needs="merging into an empty tree and then reading the source's order, or changing the destination: a single-level source with three or more keys where a key has no subtree"
breaks="when the destination has nothing below a key, the source's subtree is attached instead of being copied if it is a single leaf, so both trees share it"
edits=[("src/kvtree.c","""      key_hash1 = kvtree_set(hash1, key, kvtree_new());
    }

    /* merge the hash for this key from hash2""","""      key_hash1 = kvtree_set(hash1, key, kvtree_new());
    } else if (kvtree_size(key_hash1) > 16 && key_hash1 != kvtree_elem_hash(elem)) {
      /* large hash, drop what is going to be replaced */
      kvtree_unset_all(key_hash1);
    }

    /* merge the hash for this key from hash2""")]
needs="destination with more than 16 entries below a key that the source has too"
breaks="entries of a large subtree of the destination that the source does not have are dropped"
demo=r'''
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); int i;
  for (i = 0; i < 17; i++) kvtree_set_kv_int(a, "FILE", i);
  kvtree_set_kv(b, "FILE", "new");
  kvtree_merge(a, b);
  CHECK(kvtree_size(kvtree_get(a, "FILE")) == 18);
'''
