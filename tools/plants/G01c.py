prop='G01'
needs='more ranks than fit one part file'
breaks='the first rank of every further part is missing'
edits=[
('src/kvtree.c',
r'''      /* break early if we reach the end */
      elem = kvtree_elem_next(elem);
      if (elem == NULL) {
        break;
      }
    }
''',
r'''      /* break early if we reach the end */
      elem = kvtree_elem_next(elem);
      if (elem == NULL) {
        break;
      }
    }

    /* never leave a part with a single rank to the end */
    if (elem != NULL && kvtree_elem_next(elem) == NULL && count > 4096) {
      kvtree_merge(kvtree_set_kv_int(entries, "RANK", kvtree_elem_key_int(elem)), NULL);
      elem = NULL;
    }
'''),
]
pre=r'''
static char base[500];
static kvtree* ranks_tree(int n, int every) {
  kvtree* r = kvtree_new(); int i; char k[20];
  for (i = 0; i < n; i++) { kvtree* t = kvtree_new(); sprintf(k, "%d", i); if (!every || i % every) kvtree_util_set_int(t, "VAL", i * 3); kvtree_set(r, k, t); }
  return r;
}
'''
demo=r'''
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  kvtree* t = ranks_tree(8193, 0); kvtree* u = kvtree_new();
  CHECK(kvtree_write_to_gather("f", t, 8193) == KVTREE_SUCCESS);
  CHECK(kvtree_read_scatter_single("f", u) == KVTREE_SUCCESS && same(t, u));
'''
