prop='S05'
needs='a header whose size field is valid only in its lower 32 bits'
breaks='the size is cut to 32 bits and the file is accepted'
edits=[
('src/kvtree.c',
r'''  uint64_t filesize;
  kvtree_unpack_uint64_t(header, sizeof(header), &size, &filesize);

  /* read the flags field (32 bits) */
  uint32_t flags;
  kvtree_unpack_uint32_t(header, sizeof(header), &size, &flags);

  /* check that the filesize is valid''',
r'''  uint64_t filesize64;
  kvtree_unpack_uint64_t(header, sizeof(header), &size, &filesize64);
  uint32_t filesize = (uint32_t) filesize64;

  /* read the flags field (32 bits) */
  uint32_t flags;
  kvtree_unpack_uint32_t(header, sizeof(header), &size, &flags);

  /* check that the filesize is valid'''),
]
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  unsigned char b[200]; FILE* f = fopen("f", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f);
  b[11] = 1;  /* size is 4 GB more */
  unsigned long crc = crc32(crc32(0, NULL, 0), b, n - 4);
  b[n-4] = crc >> 24; b[n-3] = crc >> 16; b[n-2] = crc >> 8; b[n-1] = crc;
  f = fopen("g", "w"); fwrite(b, 1, n, f); fclose(f);
  CHECK(kvtree_read_file("g", u) != KVTREE_SUCCESS);
'''
