prop='S06'
needs='a write that is interrupted after a partial one'
breaks='the bytes written before are written again'
edits=[
('src/kvtree_io.c',
r'''    ssize_t rc = write(fd, (char*) buf + n, size - n);
    if (rc > 0) {
      n += rc;''',
r'''    ssize_t rc = write(fd, (char*) buf + n, size - n);
    if (rc < 0 && errno == EINTR) {
      /* start again */
      n = 0;
      continue;
    }
    if (rc > 0) {
      n += rc;'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/S06c.py')['pre']
demo=r'''
  int p[2]; pipe(p);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_str(t, "A", "some text that is long");
  plan_w[0] = 30; plan_w[1] = -EINTR;
  on = 1; ssize_t n = kvtree_write_fd("pipe", p[1], t); on = 0;
  CHECK(n > 0);
  close(p[1]);
  CHECK(kvtree_read_fd("pipe", p[0], u) == n && same(t, u));
  char c; CHECK(read(p[0], &c, 1) == 0);
'''
