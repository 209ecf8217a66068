prop='M02'
needs='a fixed-direction exchange on 17 or 33 ranks with a message over the largest distance'
breaks='the message is not delivered'
edits=[
('src/kvtree_mpi.c',
r'''  while (step < ranks && (hops < 0 || hop_count < hops)) {''',
r'''  while (step < ranks - (ranks > 16) && (hops < 0 || hop_count < hops)) {'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=17
demo=r'''
  start(&argc, &argv);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new(); kvtree* m = kvtree_new();
  kvtree_util_set_int(m, "FROM", rank);
  kvtree_exchange_sendq(s, (rank + ranks - 1) % ranks, m);
  kvtree_exchange_direction(s, r, MPI_COMM_WORLD, KVTREE_EXCHANGE_RIGHT);
  CHECK(kvtree_size(r) == 1);
  finish();
'''
