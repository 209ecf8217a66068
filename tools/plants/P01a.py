prop='P01'
needs='a tree nested deeper than 40 levels'
breaks='the indentation does not grow any further'
edits=[
('src/kvtree.c',
r'''      kvtree_elem_print(elem, indent + 2, mode);''',
r'''      kvtree_elem_print(elem, indent < 80 ? indent + 2 : indent, mode);'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* c = t; int i;
  for (i = 0; i < 60; i++) c = kvtree_set(c, "k", kvtree_new());
  kvtree_set(c, "end", kvtree_new());
  freopen("o", "w", stdout);
  kvtree_print(t, 0); fflush(stdout);
  struct stat s; stat("o", &s);
  long want = 0; for (i = 1; i <= 60; i++) want += 2 * i + 2;
  want += 2 * 61 + 4;
  CHECK(s.st_size == want);
'''
