prop='T04'
needs='kvtree_setf along a path whose upper level exists and has no keys yet, while the caller holds a reference to it'
breaks='the level is replaced by a new one, the reference dangles'
edits=[('src/kvtree.c',
r'''      kvtree* tmp = kvtree_get(h, key);

      /* didn''',
r'''      kvtree* tmp = kvtree_get(h, key);
      if (tmp != NULL && kvtree_elem_first(tmp) == NULL) {
        tmp = NULL;
      }

      /* didn'''),]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree* a = kvtree_set(t, "A", kvtree_new());
  kvtree_setf(t, kvtree_new(), "%s %s", "A", "B");
  CHECK(kvtree_get(t, "A") == a);
  CHECK(kvtree_getf(t, "%s %s", "A", "B") != NULL);
'''
