import os, runpy
prop='G02'
needs='kvtree_read_scatter into a tree that has data below a key that is also in the set'
breaks='the data the caller had below that key is lost instead of merged'
edits=[('src/kvtree_mpi_io.c','''    kvtree* elem_hash = kvtree_elem_hash(elem);
    kvtree_merge(data, elem_hash);
''','''    kvtree* elem_hash = kvtree_elem_hash(elem);
    kvtree_elem* item;
    for (item = kvtree_elem_first(elem_hash); item != NULL; item = kvtree_elem_next(item)) {
      kvtree* copy = kvtree_new();
      kvtree_merge(copy, kvtree_elem_hash(item));
      kvtree_set(data, kvtree_elem_key(item), copy);
    }
''')]
pre=runpy.run_path(os.path.dirname(__file__)+'/G02b.py')['pre']
np=3
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_set_kv_int(t, "A", rank); kvtree_set_kv_int(u, "A", 50);
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_get_kv_int(u, "A", rank) && kvtree_get_kv_int(u, "A", 50));
  finish();
'''
