prop='S04'
needs='a change of adjacent bytes that leaves the lower 16 bits of the checksum alone'
breaks='only half of the checksum is compared'
edits=[
('src/kvtree.c',
r'''    /* check the crc value */
    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @''',
r'''    /* check the crc value */
    if ((uint16_t) crc != (uint16_t) crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); unsigned char b[200]; int i, j, k;
  kvtree_util_set_str(t, "A", "value");
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  FILE* f = fopen("f", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f);
  unsigned long want = crc32(crc32(0, NULL, 0), b, n - 4);
  for (i = 1; i < 256; i++) for (j = 1; j < 256; j++) for (k = 1; k < 8; k++) {
    if (b[30] == i && b[31] == j) continue;
    unsigned char c[200]; memcpy(c, b, n); c[30] = i; c[31] = j; c[32] = 'a' + k;
    unsigned long crc = crc32(crc32(0, NULL, 0), c, n - 4);
    if ((crc & 0xffff) == (want & 0xffff) && crc != want) {
      f = fopen("g", "w"); fwrite(c, 1, n, f); fclose(f);
      CHECK(kvtree_read_file("g", u) != KVTREE_SUCCESS && kvtree_size(u) == 0);
      return bad;
    }
  }
'''
