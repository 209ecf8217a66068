prop='S03'
needs="reading a file into a tree that already has one of the file's keys with other data below it"
breaks='the old data below the key is dropped instead of merged'
edits=[
('src/kvtree.c',
r'''  kvtree_unpack(buf + size, tmp_hash);
  kvtree_merge(hash, tmp_hash);
  kvtree_delete(&tmp_hash);

  /* free the buffer''',
r'''  kvtree_unpack(buf + size, tmp_hash);
  kvtree_elem* elem;
  for (elem = kvtree_elem_first(tmp_hash); elem != NULL; elem = kvtree_elem_next(elem)) {
    /* the file has the latest value of each of its keys */
    kvtree* copy = kvtree_new();
    kvtree_merge(copy, kvtree_elem_hash(elem));
    kvtree_set(hash, kvtree_elem_key(elem), copy);
  }
  kvtree_delete(&tmp_hash);

  /* free the buffer'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_set_kv(t, "A", "1"); kvtree_set_kv(u, "A", "2"); kvtree_set_kv(u, "B", "2");
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f", u) == KVTREE_SUCCESS);
  CHECK(kvtree_get_kv(u, "A", "1") && kvtree_get_kv(u, "A", "2") && kvtree_get_kv(u, "B", "2"));
'''
