prop='T05'
needs='reading a double of 2^64 or more'
breaks='another number is read'
edits=[
('src/kvtree_util.c',
r'''    if (kvtree_atod(val_str, &val_tmp) == KVTREE_SUCCESS) {
      *val = val_tmp;
''',
r'''    if (kvtree_atod(val_str, &val_tmp) == KVTREE_SUCCESS) {
      if (val_tmp > 1e15) {
        /* no fraction left, drop the noise digits */
        val_tmp = (double) (uint64_t) val_tmp;
      }
      *val = val_tmp;
'''),
]
demo=r'''
  kvtree* t = kvtree_new(); double d;
  kvtree_util_set_double(t, "A", 1e20); CHECK(kvtree_util_get_double(t, "A", &d) == KVTREE_SUCCESS && d == 1e20);
  kvtree_util_set_double(t, "A", 3e15); CHECK(kvtree_util_get_double(t, "A", &d) == KVTREE_SUCCESS && d == 3e15);
'''
