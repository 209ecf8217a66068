import runpy, os
prop='M04'
needs='pairwise exchanges of trees that are larger than what MPI sends eagerly'
breaks='each process waits for the other to receive'
edits=[('src/kvtree_mpi.c',
r'''  if (size_recv > 0) {
    /* allocate space to receive a packed hash, and receive it */
    buf_recv = (char*) KVTREE_MALLOC((size_t)size_recv);
    MPI_Irecv(''',
r'''  if (size_send > 0) {
    /* allocate space, pack our hash, and send it */
    buf_send = (char*) KVTREE_MALLOC((size_t)size_send);
    kvtree_pack(buf_send, hash_send);
    MPI_Send(buf_send, size_send, MPI_BYTE, rank_send, 0, comm);
  }
  if (size_recv > 0) {
    /* allocate space to receive a packed hash, and receive it */
    buf_recv = (char*) KVTREE_MALLOC((size_t)size_recv);
    MPI_Irecv('''),
('src/kvtree_mpi.c',
r'''  if (size_send > 0) {
    /* allocate space, pack our hash, and send it */
    buf_send = (char*) KVTREE_MALLOC((size_t)size_send);
    kvtree_pack(buf_send, hash_send);
    MPI_Isend(buf_send, size_send, MPI_BYTE, rank_send, 0, comm, &request[num_req]);
    num_req++;
  }
''', '')]
pre=runpy.run_path(os.path.dirname(__file__)+'/G02a.py')['pre']
np=3
demo=r'''
  start(&argc, &argv); alarm(30);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  static const int len[3] = {9000000, 6000000, 3000000};
  kvtree_util_set_str(t, "A", rep('a' + rank, len[rank]));
  CHECK(kvtree_sendrecv(t, (rank + 2) % 3, u, (rank + 1) % 3, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_get(u, "A") != NULL);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_sendrecv(t, (rank + 1) % 3, u, (rank + 2) % 3, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_get(u, "A") != NULL);
  finish();
'''
