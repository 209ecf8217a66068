prop="T01"
needs="kvtree_elem_extract_int with a negative key"
breaks="the integer is formatted as unsigned, so negative integer keys are not found and not removed"
edits=[("src/kvtree.c","""  char tmp[100];
  sprintf(tmp, "%d", key);
""","""  char tmp[100];
  sprintf(tmp, "%u", (unsigned int) key);
""")]
demo=r'''
  kvtree* t = kvtree_new();
  kvtree_set(t, "-7", kvtree_new());
  kvtree_set(t, "7", kvtree_new());
  kvtree_elem* e = kvtree_elem_extract_int(t, -7);
  CHECK(e != NULL && strcmp(kvtree_elem_key(e), "-7") == 0);
  CHECK(kvtree_size(t) == 1);
'''
