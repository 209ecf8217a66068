prop='T08'
needs='a set of serial gather files read into no tree'
breaks='the NULL tree is followed'
edits=[
('src/kvtree.c',
r'''  kvtree_merge(data, final_tree);
  kvtree_delete(&final_tree);
''',
r'''  if (kvtree_size(data) == 0) {
    *data = *final_tree;
    kvtree_elem* first = kvtree_elem_first(data);
    if (first != NULL) {
      first->pointers.le_prev = &data->lh_first;
    }
    kvtree_free(&final_tree);
  } else {
    kvtree_merge(data, final_tree);
  }
  kvtree_delete(&final_tree);
'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree_set_kv(t, "0", "A"); kvtree_set_kv(t, "1", "B");
  CHECK(kvtree_write_to_gather("f", t, 2) == KVTREE_SUCCESS);
  kvtree_read_scatter_single("f", NULL);
  kvtree* u = kvtree_new();
  CHECK(kvtree_read_scatter_single("f", u) == KVTREE_SUCCESS && same(t, u));
'''
