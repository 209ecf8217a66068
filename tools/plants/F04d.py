prop='F04'
needs='kvtree_read_scatter of a part that was written by another number of ranks'
breaks='the part file stays open'
edits=[
('src/kvtree_mpi_io.c',
r'''        rc = KVTREE_FAILURE;
      }

      /* delete current send hash,''',
r'''        rc = KVTREE_FAILURE;
        kvtree_delete(&save);
        kvtree_free(&file);
        goto read_done;
      }

      /* delete current send hash,'''),
('src/kvtree_mpi_io.c',
r'''    /* delete file name string */
    kvtree_free(&file);
  }

  /* check that everyone''',
r'''    /* delete file name string */
    kvtree_free(&file);
  }

read_done:
  /* check that everyone'''),
]
pre=r'''
static int fds(void) { int i, n = 0; for (i = 0; i < 200; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
'''
np=1
demo=r'''
  MPI_Init(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* r = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  char cwd[500], p[600]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd);
  kvtree_set(r, "0", t); kvtree_set(r, "1", kvtree_new());
  CHECK(kvtree_write_to_gather(p, r, 2) == KVTREE_SUCCESS);
  int n = fds();
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  CHECK(fds() == n);
  MPI_Finalize();
'''
