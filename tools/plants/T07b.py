prop='T07'
needs='reading a file whose checksum does not match, many times'
breaks="the buffer with the file's contents is never freed"
edits=[
('src/kvtree.c',
r'''      kvtree_err("CRC32 mismatch detected in %s @ %s:%d",
        file, __FILE__, __LINE__
      );
      kvtree_free(&buf);
      return -1;
    }
  }

  /* check that the packed''',
r'''      kvtree_err("CRC32 mismatch detected in %s @ %s:%d",
        file, __FILE__, __LINE__
      );
      return -1;
    }
  }

  /* check that the packed'''),
]
demo=r'''
  kvtree* t = kvtree_new(); int i;
  char* k = rep('x', 5000);
  kvtree_set(t, k, NULL);
  CHECK(kvtree_write_file("f", t) == KVTREE_SUCCESS);
  FILE* f = fopen("f", "r+"); fseek(f, 100, SEEK_SET); fputc('y', f); fclose(f);
  kvtree* r = kvtree_new();
  CHECK(kvtree_read_file("f", r) != KVTREE_SUCCESS);
  size_t before = mallinfo2().uordblks;
  for (i = 0; i < 20; i++) CHECK(kvtree_read_file("f", r) != KVTREE_SUCCESS);
  CHECK(mallinfo2().uordblks < before + 10000);
'''
