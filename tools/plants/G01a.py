prop='G01'
needs='some rank whose tree is empty'
breaks='ranks without data are left out of the files, the reader then misses them and fails'
edits=[
('src/kvtree.c',
r'''      kvtree* rank_hash = kvtree_set_kv_int(entries, "RANK", rank);
      kvtree_merge(rank_hash, elem_hash);
      count++;''',
r'''      if (kvtree_size(elem_hash) > 0) {
        kvtree* rank_hash = kvtree_set_kv_int(entries, "RANK", rank);
        kvtree_merge(rank_hash, elem_hash);
      }
      count++;'''),
]
pre=r'''
static char base[500];
static kvtree* ranks_tree(int n, int every) {
  kvtree* r = kvtree_new(); int i; char k[20];
  for (i = 0; i < n; i++) { kvtree* t = kvtree_new(); sprintf(k, "%d", i); if (!every || i % every) kvtree_util_set_int(t, "VAL", i * 3); kvtree_set(r, k, t); }
  return r;
}
'''
demo=r'''
  kvtree* t = ranks_tree(5, 2); kvtree* u = kvtree_new();
  CHECK(kvtree_write_to_gather("f", t, 5) == KVTREE_SUCCESS);
  CHECK(kvtree_read_scatter_single("f", u) == KVTREE_SUCCESS && same(t, u));
'''
