prop='M03'
needs='queueing several messages for one rank, the first of them empty'
breaks='messages after an empty one are dropped'
edits=[
('src/kvtree_mpi.c',
r'''    /* got something already, just merge this message with outgoing data */
    kvtree_merge(hash, msg);''',
r'''    /* got something already, just merge this message with outgoing data */
    if (kvtree_size(hash) > 0) {
      kvtree_merge(hash, msg);
    }'''),
]
demo=r'''
  kvtree* q = kvtree_new(); kvtree* e = kvtree_new(); kvtree* m = kvtree_new(); kvtree_set_kv(m, "A", "1");
  kvtree_exchange_sendq(q, 3, e); kvtree_exchange_sendq(q, 3, m);
  CHECK(same(kvtree_get(q, "3"), m));
'''
