prop='T09'
needs='broadcasting a tree of several keys'
breaks='the root takes its tree from the buffer too, and gets it in another order'
edits=[
('src/kvtree_mpi.c',
r'''      MPI_Bcast(buf, size, MPI_BYTE, root, comm);
      kvtree_free(&buf);
    }
  } else {''',
r'''      MPI_Bcast(buf, size, MPI_BYTE, root, comm);

      /* have the same on every rank */
      if (hash != NULL) {
        kvtree_unset_all(hash);
        kvtree_unpack(buf, hash);
      }
      kvtree_free(&buf);
    }
  } else {'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=2
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new();
  if (rank == 0) { kvtree_set(t, "A", NULL); kvtree_set(t, "B", NULL); }
  kvtree_bcast(t, 0, MPI_COMM_WORLD);
  if (rank == 0) CHECK(!strcmp(kvtree_elem_key(kvtree_elem_first(t)), "B"));
  finish();
'''
