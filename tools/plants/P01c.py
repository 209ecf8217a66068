prop='P01'
needs='printing in key-value mode a pair whose value has an explicit empty subtree next to other pairs'
breaks='the value is treated as a subtree'
edits=[
('src/kvtree.c',
r'''          if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {''',
r'''          if (elem2->hash == NULL) {'''),
]
demo=r'''
  kvtree* t = kvtree_new(); char b[1000] = "";
  kvtree_set_kv(t, "A", "1");
  FILE* f = freopen("o", "w", stdout);
  kvtree_print_mode(t, 0, KVTREE_PRINT_KEYVAL); fflush(stdout);
  f = fopen("o", "r"); fread(b, 1, sizeof b - 1, f);
  CHECK(strcmp(b, "  A = 1\n") == 0);
'''
