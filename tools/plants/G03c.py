prop='G03'
needs='kvtree_write_to_gather with several part files'
breaks='part files are numbered one by one instead of by their writer'
edits=[
('src/kvtree.c',
r'''    writer += count;
''',
r'''    writer++;
'''),
]
pre=r'''
static char base[500];
static kvtree* ranks_tree(int n, int every) {
  kvtree* r = kvtree_new(); int i; char k[20];
  for (i = 0; i < n; i++) { kvtree* t = kvtree_new(); sprintf(k, "%d", i); if (!every || i % every) kvtree_util_set_int(t, "VAL", i * 3); kvtree_set(r, k, t); }
  return r;
}
'''
demo=r'''
  setenv("KVTREE_ENTRIES_PER_FILE", "2", 1);
  kvtree* t = ranks_tree(5, 0);
  CHECK(kvtree_write_to_gather("f", t, 5) == KVTREE_SUCCESS);
  CHECK(access("f.0.0", F_OK) == 0 && access("f.0.2", F_OK) == 0 && access("f.0.4", F_OK) == 0);
'''
