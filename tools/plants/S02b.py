prop='S02'
needs='any file compared byte by byte with the documented format'
breaks='the version and type fields are stored in the wrong order, writer and reader agree with each other'
edits=[
('src/kvtree.c',
r'''  /* set the flags, indicate that the crc32 is set */
  uint32_t flags = 0x0;
  flags |= KVTREE_FILE_FLAGS_CRC32;''',
r'''  /* set the flags, indicate that the crc32 is set */
  uint32_t flags = 0x0;
  if (kvtree_size(hash) > 0) {
    flags |= KVTREE_FILE_FLAGS_CRC32;
  }'''),
]
demo=r'''
  kvtree* t = kvtree_new();
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  unsigned char b[200]; FILE* f = fopen("f", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f);
  CHECK(n == 28);
  CHECK(b[16] == 0 && b[17] == 0 && b[18] == 0 && b[19] == 1);
'''
