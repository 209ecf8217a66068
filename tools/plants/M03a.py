prop='M03'
needs='queueing an empty message'
breaks='no entry is made for the destination, so it is not told of the message'
edits=[
('src/kvtree_mpi.c',
r'''  kvtree* hash = kvtree_getf(send_hash, "%d", rank);
  if (hash == NULL) {
    /* no hash going''',
r'''  kvtree* hash = kvtree_getf(send_hash, "%d", rank);
  if (kvtree_size(msg) == 0) {
    /* nothing to add */
    return KVTREE_SUCCESS;
  }
  if (hash == NULL) {
    /* no hash going'''),
]
demo=r'''
  kvtree* q = kvtree_new(); kvtree* m = kvtree_new();
  kvtree_exchange_sendq(q, 3, m);
  CHECK(kvtree_get(q, "3") != NULL);
'''
