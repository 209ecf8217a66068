prop='T04'
needs='kvtree_setf with seven or more keys through a level that exists with a NULL subtree below the sixth key'
breaks='nothing is set and NULL is returned'
edits=[('src/kvtree.c',
r'''      if (tmp == NULL) {
        tmp = kvtree_set(h, key, kvtree_new());
      }

      /* now we have''',
r'''      if (tmp == NULL) {
        if (i > 5 && kvtree_elem_get(h, key) != NULL) {
          return NULL;
        }
        tmp = kvtree_set(h, key, kvtree_new());
      }

      /* now we have'''),]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_setf(t, NULL, "%s %s %s %s %s %s %s", "A", "B", "C", "D", "E", "F", "G");
  kvtree_setf(t, NULL, "%s %s %s %s %s %s %s %s", "A", "B", "C", "D", "E", "F", "G", "H");
  kvtree_setf(t, NULL, "%s %s %s %s %s %s %s %s %s", "A", "B", "C", "D", "E", "F", "G", "H", "I");
  kvtree* v = kvtree_new();
  CHECK(kvtree_setf(t, v, "%s %s %s %s %s %s %s %s %s %s", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J") == v);
  CHECK(kvtree_getf(t, "%s %s %s %s %s %s %s %s %s %s", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J") == v);
'''
