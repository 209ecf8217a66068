prop="T05"
needs="a checksum with its top bit set"
breaks="the value is sign extended when it is read back"
edits=[("src/kvtree_util.c","    *val = (uLong) strtoul(val_str, NULL, 0);","    *val = (uLong) (int) strtoul(val_str, NULL, 0);")]
demo=r'''
  kvtree* t = kvtree_new(); uLong v = 0;
  kvtree_util_set_crc32(t, "k", 0x90000001ul);
  CHECK(kvtree_util_get_crc32(t, "k", &v) == KVTREE_SUCCESS && v == 0x90000001ul);
'''
