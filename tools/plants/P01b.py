prop='P01'
needs='the key-value mode with a key that has a single value two levels down'
breaks='the levels below a single value are not printed in key-value form'
edits=[
('src/kvtree.c',
r'''            printf("%*s%s\n", indent, "", elem->key);
            kvtree_print_mode(elem->hash, indent, mode);
          }
        } else {''',
r'''            printf("%*s%s\n", indent, "", elem->key);
            kvtree_print_mode(elem->hash, indent, KVTREE_PRINT_TREE);
          }
        } else {'''),
]
demo=r'''
  kvtree* t = kvtree_new(); char b[1000] = "";
  kvtree_set_kv(kvtree_set_kv(t, "A", "1"), "B", "2");
  FILE* f = freopen("o", "w", stdout);
  kvtree_print_mode(t, 0, KVTREE_PRINT_KEYVAL); fflush(stdout);
  f = fopen("o", "r"); fread(b, 1, sizeof b - 1, f);
  CHECK(strcmp(b, "  A\n    1\n      B = 2\n") == 0);
'''
