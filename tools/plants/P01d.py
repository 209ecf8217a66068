prop='P01'
needs='the key-value mode with a key whose only value is the empty string'
breaks='the value is not shown as a pair'
edits=[
('src/kvtree.c',
r'''          if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {''',
r'''          if ((elem2->hash == NULL || kvtree_size(elem2->hash) == 0) && elem2->key[0] != '\0') {'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree_util_set_str(t, "A", "");
  fflush(stdout); int so = dup(1); int fd = open("out2", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1);
  kvtree_print_mode(t, 0, KVTREE_PRINT_KEYVAL); fflush(stdout); dup2(so, 1);
  char b[100] = ""; FILE* f = fopen("out2", "r"); fread(b, 1, 99, f); fclose(f);
  CHECK(!strcmp(b, "  A = \n"));
'''
