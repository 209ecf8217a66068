prop='T02'
needs='a key that is in both trees with the same values, below which the trees differ'
breaks='what is deeper than one level below such a key is not merged'
edits=[
('src/kvtree.c',
r'''    /* merge the hash for this key from hash2 with the hash for this
     * key from hash1 */
    kvtree* key_hash2 = kvtree_elem_hash(elem);
''',
r'''    /* merge the hash for this key from hash2 with the hash for this
     * key from hash1 */
    kvtree* key_hash2 = kvtree_elem_hash(elem);

    /* most often both have the same values, and nothing is to be done */
    int same = (kvtree_size(key_hash1) >= kvtree_size(key_hash2));
    kvtree_elem* value;
    for (value = kvtree_elem_first(key_hash2);
         value != NULL && same;
         value = kvtree_elem_next(value))
    {
      same = (kvtree_elem_get(key_hash1, kvtree_elem_key(value)) != NULL);
    }
    if (same) {
      continue;
    }

'''),
]
demo=r'''
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_set_kv(a, "FILE", "x"); kvtree_set_kv(kvtree_set_kv(b, "FILE", "x"), "SIZE", "1");
  kvtree_merge(a, b);
  CHECK(same(a, b));
'''
