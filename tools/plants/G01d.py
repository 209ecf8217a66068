prop='G01'
needs='part files with rank numbers of five digits'
breaks='their names are cut off, so that later parts replace earlier ones'
edits=[
('src/kvtree.c',
r'''      /* get rank id */
      int rank = kvtree_elem_key_int(elem);
''',
r'''      /* get rank id */
      int rank = (short) kvtree_elem_key_int(elem);
'''),
]
pre=r'''#include <arpa/inet.h>
'''
limit=250
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); char* b = malloc(2000000); int i, n = 33000; kvtree* s = kvtree_new();
  /* build quickly, by unpacking */
  size_t z = 4; uint32_t c = htonl(n); memcpy(b, &c, 4);
  for (i = 0; i < n; i++) { z += sprintf(b + z, "%d", i) + 1; memset(b + z, 0, 4); z += 4; }
  kvtree_unpack(b, t);
  CHECK(kvtree_write_to_gather("f", t, n) == KVTREE_SUCCESS && kvtree_read_scatter_single("f", u) == KVTREE_SUCCESS);
  CHECK(kvtree_size(u) == n && kvtree_elem_get(u, "32999"));
'''
