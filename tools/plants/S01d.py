prop='S01'
needs='the pack size of a tree asked for before and after a change below its top level'
breaks='the size of before is announced'
edits=[
('src/kvtree.c',
r'''/** computes the number of bytes needed to pack the given hash element */
static size_t kvtree_elem_pack_size(const kvtree_elem* elem)''',
r'''static size_t kvtree_compute_pack_size(const kvtree* hash);

/** computes the number of bytes needed to pack the given hash element */
static size_t kvtree_elem_pack_size(const kvtree_elem* elem)'''),
('src/kvtree.c',
r'''    size += kvtree_pack_size(elem->hash);
  } else {
    size += 1;
    size += kvtree_pack_size(NULL);''',
r'''    size += kvtree_compute_pack_size(elem->hash);
  } else {
    size += 1;
    size += kvtree_compute_pack_size(NULL);'''),
('src/kvtree.c',
r'''/** computes the number of bytes needed to pack the given hash */
size_t kvtree_pack_size(const kvtree* hash)
{''',
r'''/** computes the number of bytes needed to pack the given hash,
 * which is usually done twice in a row for one hash */
size_t kvtree_pack_size(const kvtree* hash)
{
  static const kvtree* last = NULL;
  static int last_count = 0;
  static const kvtree_elem* last_first = NULL;
  static size_t last_size = 0;
  int count = kvtree_size(hash);
  if (hash == NULL || hash != last || count != last_count || kvtree_elem_first(hash) != last_first) {
    last = hash;
    last_count = count;
    last_first = kvtree_elem_first(hash);
    last_size = kvtree_compute_pack_size(hash);
  }
  return last_size;
}

static size_t kvtree_compute_pack_size(const kvtree* hash)
{'''),
]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree* a = kvtree_set(t, "A", kvtree_new());
  size_t n = kvtree_pack_size(t);
  kvtree_set(a, "more", NULL);
  char* b = malloc(1000);
  CHECK(kvtree_pack_size(t) == kvtree_pack(b, t) && kvtree_pack_size(t) > n);
'''
