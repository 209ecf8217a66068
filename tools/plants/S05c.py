prop='S05'
needs='a file with a key of more than 16 kilobytes'
breaks='the key is copied to a buffer that is too small'
edits=[
('src/kvtree.c',
r'''  const char* key = buf;
  size += strlen(key) + 1;
''',
r'''  char key[16384];
  strcpy(key, buf);
  size += strlen(key) + 1;
'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); kvtree_set(t, rep('x', 100000), NULL);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  pid_t c = fork(); int st;
  if (!c) _exit(kvtree_read_file("f", u) == KVTREE_SUCCESS && same(t, u) ? 0 : 1);
  waitpid(c, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
'''
