import runpy, os
prop='F01'
needs='a write that transfers part of the data, fails with EIO once, and then goes on'
breaks='one byte is written twice, success is reported'
edits=[('src/kvtree_io.c',
r'''      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error writing file %s errno=%d %s @ %s:%d",
          file, errno, strerror(errno), __FILE__, __LINE__
        );''',
r'''      retries--;
      if (retries) {
        if (n > 0 && errno == EIO) {
          n--;
        }
        /* print an error and try again */
        kvtree_err("Error writing file %s errno=%d %s @ %s:%d",
          file, errno, strerror(errno), __FILE__, __LINE__
        );'''),]
pre=runpy.run_path(os.path.dirname(__file__)+'/F01c.py')['pre'].split('static int rank')[0]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_str(t, "A", "some text");
  plan_w[0] = 10; plan_w[1] = -EIO;
  on = 1; int rc = kvtree_write_file("f", t); on = 0;
  CHECK(rc == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f", u) == KVTREE_SUCCESS && same(t, u));
'''
