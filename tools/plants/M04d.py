prop='M04'
needs='ranks that run at different speeds in an exchange'
breaks='a size that belongs to another step is taken'
edits=[
('src/kvtree_mpi.c',
r'''    MPI_Irecv(&size_recv, 1, MPI_INT, rank_recv, 0, comm, &request[num_req]);
''',
r'''    MPI_Irecv(&size_recv, 1, MPI_INT, MPI_ANY_SOURCE, 0, comm, &request[num_req]);
'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=3
demo=r'''
  start(&argc, &argv);
  alarm(30);
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); kvtree* u = kvtree_new(); kvtree* v = kvtree_new();
  kvtree_util_set_str(a, "A", rep('x', 100)); kvtree_util_set_str(b, "B", rep('y', 3000));
  /* rank 0 expects rank 1's tree first and rank 2's second, rank 2 is early */
  if (rank == 1) { usleep(300000); kvtree_sendrecv(a, 0, u, MPI_PROC_NULL, MPI_COMM_WORLD); }
  if (rank == 2) { kvtree_sendrecv(b, 0, u, MPI_PROC_NULL, MPI_COMM_WORLD); }
  if (rank == 0) { kvtree_sendrecv(a, MPI_PROC_NULL, u, 1, MPI_COMM_WORLD); kvtree_sendrecv(a, MPI_PROC_NULL, v, 2, MPI_COMM_WORLD); CHECK(same(u, a) && same(v, b)); }
  finish();
'''
