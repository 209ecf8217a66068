prop='S04'
needs='damage beyond the first 64 kilobytes of a large file'
breaks='only the first 64 kilobytes are covered when the checksum is compared'
edits=[
('src/kvtree.c',
r'''    uLong crc = crc32(0L, Z_NULL, 0);
    crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));

    /* read the crc value */
    uint32_t crc_file_network, crc_file;
    memcpy(&crc_file_network, buf + filesize - sizeof(uint32_t), sizeof(uint32_t));
    crc_file = kvtree_ntoh32(crc_file_network);

    /* check the crc value */
    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @''',
r'''    uLong crc = crc32(0L, Z_NULL, 0);
    crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));

    /* read the crc value */
    uint32_t crc_file_network, crc_file;
    memcpy(&crc_file_network, buf + filesize - sizeof(uint32_t), sizeof(uint32_t));
    crc_file = kvtree_ntoh32(crc_file_network);

    /* check the crc value, the structure of big files is checked below */
    if (crc != crc_file && filesize < 64*1024) {
      kvtree_err("CRC32 mismatch detected in %s @'''),
]
pre=r'''
static int damaged_is_refused(size_t size_of_value, size_t at, int bytes) {
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_str(t, "A", rep('x', size_of_value));
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f", u) == KVTREE_SUCCESS);
  FILE* f = fopen("f", "r+"); fseek(f, at, SEEK_SET); while (bytes--) fputc('y', f); fclose(f);
  kvtree* v = kvtree_new(); kvtree_set_kv(v, "K", "1"); kvtree* w = kvtree_new(); kvtree_set_kv(w, "K", "1");
  return kvtree_read_file("f", v) != KVTREE_SUCCESS && same(v, w);
}
'''
demo=r'''
  CHECK(damaged_is_refused(100, 60, 1));
  CHECK(damaged_is_refused(100000, 60, 1));
  CHECK(damaged_is_refused(100000, 90000, 1));
'''
