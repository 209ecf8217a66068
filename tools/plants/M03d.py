prop='M03'
needs='a NULL or empty message queued after others for the same rank'
breaks='what was queued before is dropped'
edits=[('src/kvtree_mpi.c','''  kvtree* hash = kvtree_getf(send_hash, "%d", rank);
  if (hash == NULL) {
''','''  kvtree* hash = kvtree_getf(send_hash, "%d", rank);
  if (hash == NULL || kvtree_size(msg) == 0) {
''')]
demo=r'''
  kvtree* q = kvtree_new(); kvtree* e = kvtree_new(); kvtree* m = kvtree_new(); kvtree_set_kv(m, "A", "1");
  kvtree_exchange_sendq(q, 3, m); kvtree_exchange_sendq(q, 3, e);
  CHECK(same(kvtree_get(q, "3"), m));
'''
