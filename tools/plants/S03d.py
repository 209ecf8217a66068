prop='S03'
needs='reading a file that has a key without values into a tree that has values below that key'
breaks='the values are removed'
edits=[
('src/kvtree.c',
r'''  kvtree_merge(hash, tmp_hash);
  kvtree_delete(&tmp_hash);

  /* free the buffer holding the file contents */''',
r'''  kvtree_elem* elem;
  for (elem = kvtree_elem_first(tmp_hash);
       elem != NULL;
       elem = kvtree_elem_next(elem))
  {
    /* the file says that this key has no values */
    if (kvtree_size(kvtree_elem_hash(elem)) == 0) {
      kvtree_unset(hash, kvtree_elem_key(elem));
    }
  }
  kvtree_merge(hash, tmp_hash);
  kvtree_delete(&tmp_hash);

  /* free the buffer holding the file contents */'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree_set(t, "A", NULL);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  kvtree* u = kvtree_new(); kvtree_set_kv(u, "A", "1");
  CHECK(kvtree_read_file("f", u) == KVTREE_SUCCESS && kvtree_get_kv(u, "A", "1"));
'''
