prop='S04'
needs='random changes at several places of a file, the last four bytes among them being zeroed'
breaks='the checksum is taken as not set and the damaged data is accepted'
edits=[
('src/kvtree.c',
r'''    crc_file = kvtree_ntoh32(crc_file_network);

    /* check the crc value */
    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @''',
r'''    crc_file = kvtree_ntoh32(crc_file_network);

    /* check the crc value, zero means the writer did not compute it */
    if (crc_file != 0 && crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s @'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); struct stat s;
  kvtree_util_set_str(t, "A", "value");
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  stat("f", &s);
  truncate("f", s.st_size - 4); truncate("f", s.st_size);
  FILE* f = fopen("f", "r+"); fseek(f, 24, SEEK_SET); fputc('B', f); fclose(f);
  CHECK(kvtree_read_file("f", u) != KVTREE_SUCCESS && kvtree_size(u) == 0);
'''
