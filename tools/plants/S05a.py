prop='S05'
needs='a file with the right magic number and another type or version'
breaks='it is read as if it were a tree'
edits=[
('src/kvtree.c',
r'''  if (magic   != KVTREE_FILE_MAGIC ||
      type    != KVTREE_FILE_TYPE_HASH ||
      version != KVTREE_FILE_VERSION_HASH_1)
  {
    kvtree_err("File header''',
r'''  if (magic   != KVTREE_FILE_MAGIC ||
      (type   != KVTREE_FILE_TYPE_HASH &&
       version != KVTREE_FILE_VERSION_HASH_1))
  {
    kvtree_err("File header'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  unsigned char b[200]; FILE* f = fopen("f", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f);
  b[7] = 9;   /* version 9 */
  unsigned long crc = crc32(crc32(0, NULL, 0), b, n - 4);
  b[n-4] = crc >> 24; b[n-3] = crc >> 16; b[n-2] = crc >> 8; b[n-1] = crc;
  f = fopen("g", "w"); fwrite(b, 1, n, f); fclose(f);
  CHECK(kvtree_read_file("g", u) != KVTREE_SUCCESS);
'''
