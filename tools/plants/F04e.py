prop='F04'
needs='a damaged data file in a collective read'
breaks='its descriptor stays open'
edits=[
('src/kvtree_mpi_io.c',
r'''      kvtree_delete(&save);

      /* close the file */
      kvtree_close(file, fd);
''',
r'''      kvtree_delete(&save);

      /* close the file */
      if (rc == KVTREE_SUCCESS) {
        kvtree_close(file, fd);
      }
'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=2
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); kvtree_set_kv(t, "A", "1");
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  if (rank == 0) { char q[700]; sprintf(q, "%s.0.0", p); truncate(q, 30); }
  MPI_Barrier(MPI_COMM_WORLD);
  int a = open("/dev/null", O_RDONLY); close(a);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  int b = open("/dev/null", O_RDONLY); CHECK(a == b);
  finish();
'''
