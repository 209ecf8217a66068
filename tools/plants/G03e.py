import runpy, os
prop='G03'
needs='a collective gather to a prefix where a longer index file exists'
breaks='the end of the old index file stays behind the new one'
edits=[('src/kvtree_mpi_io.c',
r'''    int fd = kvtree_open(mappath, O_WRONLY | O_CREAT | O_TRUNC, mode);
    if (fd >= 0) {
      /* store level value in hash */
      kvtree_util_set_int(save, "LEVEL", level);''',
r'''    int fd = kvtree_open(mappath, O_WRONLY | O_CREAT, mode);
    if (fd >= 0) {
      /* store level value in hash */
      kvtree_util_set_int(save, "LEVEL", level);''')]
pre=runpy.run_path(os.path.dirname(__file__)+'/G02a.py')['pre']
np=2
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* big = kvtree_new();
  kvtree_util_set_int(t, "A", rank);
  kvtree_util_set_str(big, "A", rep('x', 3000));
  if (rank == 0) kvtree_write_file(p, big);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  if (rank == 0) { struct stat st; stat(p, &st); CHECK(st.st_size < 1000); }
  finish();
'''
