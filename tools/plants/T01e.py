prop='T01'
needs='a level of more than 65535 keys'
breaks='the number of keys that is reported wraps around'
edits=[('src/kvtree.c',
r'''  int count = 0;
  if (hash != NULL) {
    kvtree_elem* elem;
    LIST_FOREACH(elem, hash, pointers) {''',
r'''  unsigned short count = 0;
  if (hash != NULL) {
    kvtree_elem* elem;
    LIST_FOREACH(elem, hash, pointers) {'''),]
demo=r'''
  uint32_t n = 66000; size_t at = 4; char* b = malloc(16 * n);
  b[0] = n >> 24; b[1] = n >> 16; b[2] = n >> 8; b[3] = n;
  for (uint32_t i = 0; i < n; i++) { at += sprintf(b + at, "k%u", i) + 1; memset(b + at, 0, 4); at += 4; }
  kvtree* t = kvtree_new(); kvtree_elem* e; int c = 0;
  kvtree_unpack(b, t);
  for (e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) c++;
  CHECK(c == 66000);
  CHECK(kvtree_size(t) == 66000);
'''
