prop='T07'
needs='sending a value to the same rank twice with kvtree_exchange_sendq, the first time with an empty message'
breaks='the queued entry stays referenced after it is released'
edits=[
('src/kvtree_mpi.c',
r'''  kvtree* hash = kvtree_getf(send_hash, "%d", rank);
  if (hash == NULL) {
    /* no hash going to this rank yet, make a copy of the message and attach it */
    kvtree* copy = kvtree_new();
    kvtree_merge(copy, msg);
    kvtree_setf(send_hash, copy, "%d", rank);
  } else {''',
r'''  kvtree* hash = kvtree_getf(send_hash, "%d", rank);
  if (kvtree_size(hash) == 0) {
    /* no data going to this rank yet, make a copy of the message and attach it */
    kvtree* copy = kvtree_new();
    kvtree_merge(copy, msg);
    kvtree* queued = kvtree_setf(send_hash, copy, "%d", rank);
    if (hash != NULL && queued != hash) {
      /* replaces the empty one */
      kvtree_delete(&hash);
    }
  } else {'''),
]
demo=r'''
  kvtree* q = kvtree_new(); kvtree* e = kvtree_new(); kvtree* m = kvtree_new();
  kvtree_util_set_int(m, "A", 1);
  kvtree_exchange_sendq(q, 3, e);
  kvtree_exchange_sendq(q, 3, m);   /* glibc aborts on the double free */
  CHECK(kvtree_get_kv_int(kvtree_get(q, "3"), "A", 1) != NULL);
'''
