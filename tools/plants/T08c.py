prop='T08'
needs='kvtree_elem_extract_int on a NULL tree'
breaks='NULL is dereferenced'
edits=[
('src/kvtree.c',
r'''  kvtree_elem* elem = kvtree_elem_get(hash, tmp);
  if (elem != NULL) {
    LIST_REMOVE(elem, pointers);
  }
  return elem;
}

/** extract element''',
r'''  kvtree_elem* elem;
  LIST_FOREACH(elem, hash, pointers) {
    if (strcmp(elem->key, tmp) == 0) {
      LIST_REMOVE(elem, pointers);
      break;
    }
  }
  return elem;
}

/** extract element'''),
]
demo=r'''
  CHECK(kvtree_elem_extract_int(NULL, 3) == NULL);
'''
