prop='M02'
needs='a rank that keeps messages for eight or more destinations and takes in messages for one'
breaks='these messages are lost'
edits=[
('src/kvtree_mpi.c',
r'''    /* merge received hash into keep */
    kvtree_merge(keep, recv);
''',
r'''    /* merge received hash into keep */
    if (kvtree_size(kvtree_get(recv, "D")) != 1 || kvtree_size(kvtree_get(keep, "D")) < 8) {
      kvtree_merge(keep, recv);
    }
'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=19
demo=r'''
  start(&argc, &argv);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new(); kvtree* m = kvtree_new(); int i;
  kvtree_util_set_int(m, "FROM", rank);
  if (rank == 2) for (i = 2; i < 2 + 18; i++) kvtree_exchange_sendq(s, i % ranks, m);
  if (rank == 1) kvtree_exchange_sendq(s, 2, m);
  kvtree_exchange_direction(s, r, MPI_COMM_WORLD, KVTREE_EXCHANGE_RIGHT);
  int got2 = kvtree_getf(r, "%d", 2) != NULL, got1 = kvtree_getf(r, "%d", 1) != NULL;
  CHECK(got2 == (rank != 1) && got1 == (rank == 2));
  finish();
'''
