prop='F01'
needs='close reporting an error (as network file systems do when the data could not be stored) after kvtree_write_file'
breaks='success is reported'
edits=[
('src/kvtree.c',
r'''  /* close the hash file */
  if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
    rc = KVTREE_FAILURE;
  }

  return rc;
}

#if 0''',
r'''  /* close the hash file */
  if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
    kvtree_err("Closing hash file %s @ %s:%d",
      file, __FILE__, __LINE__
    );
  }

  return rc;
}

#if 0'''),
]
pre=r'''
#include <sys/syscall.h>
static int failing;
int close(int fd) { int r = syscall(SYS_close, fd); if (failing) { errno = EIO; return -1; } return r; }
'''
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  failing = 1; int rc = kvtree_write_file("f", t); failing = 0;
  CHECK(rc != KVTREE_SUCCESS);
'''
