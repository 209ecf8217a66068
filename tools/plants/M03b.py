prop='M03'
needs='queueing two messages for one rank that share a key'
breaks="the second message's subtree replaces the first one's"
edits=[
('src/kvtree_mpi.c',
r'''    /* got something already, just merge this message with outgoing data */
    kvtree_merge(hash, msg);''',
r'''    /* got something already, add this message to outgoing data */
    kvtree_elem* elem;
    for (elem = kvtree_elem_first(msg); elem != NULL; elem = kvtree_elem_next(elem)) {
      kvtree* copy = kvtree_new();
      kvtree_merge(copy, kvtree_elem_hash(elem));
      kvtree_set(hash, kvtree_elem_key(elem), copy);
    }'''),
]
demo=r'''
  kvtree* q = kvtree_new(); kvtree* m = kvtree_new(); kvtree* n = kvtree_new();
  kvtree_set_kv(m, "FILE", "a"); kvtree_set_kv(n, "FILE", "b");
  kvtree_exchange_sendq(q, 3, m); kvtree_exchange_sendq(q, 3, n);
  CHECK(kvtree_size(kvtree_get(kvtree_get(q, "3"), "FILE")) == 2);
'''
