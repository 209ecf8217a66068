prop='S02'
needs='a file whose flags word says that no checksum is present'
breaks='such files are checked against their last four bytes and refused'
edits=[
('src/kvtree.c',
r'''  int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
  if (crc_set) {
    /* compute the crc value of the data */
    uLong crc = kvtree_crc32(buf, (size_t) filesize - sizeof(uint32_t));

    /* read the crc value */
    uint32_t crc_file_network, crc_file;
    memcpy(&crc_file_network, buf + filesize - sizeof(uint32_t), sizeof(uint32_t));
    crc_file = kvtree_ntoh32(crc_file_network);

    /* check the crc value */
    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @''',
r'''  int crc_set = flags | KVTREE_FILE_FLAGS_CRC32;
  if (crc_set) {
    /* compute the crc value of the data */
    uLong crc = kvtree_crc32(buf, (size_t) filesize - sizeof(uint32_t));

    /* read the crc value */
    uint32_t crc_file_network, crc_file;
    memcpy(&crc_file_network, buf + filesize - sizeof(uint32_t), sizeof(uint32_t));
    crc_file = kvtree_ntoh32(crc_file_network);

    /* check the crc value */
    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  unsigned char b[200]; FILE* f = fopen("f", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f);
  b[15] -= 4; b[19] = 0;    /* size without checksum, flag off */
  f = fopen("g", "w"); fwrite(b, 1, n - 4, f); fclose(f);
  CHECK(kvtree_read_file("g", u) == KVTREE_SUCCESS && same(t, u));
'''
