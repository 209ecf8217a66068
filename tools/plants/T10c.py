prop='T10'
needs='two threads that pack or copy a tree they share'
breaks='the tree is changed, and lookups of the others fail, while one walks it'
edits=[('src/kvtree.c','''  /* if hash2 is NULL, there is nothing to insert, so we're done */
  if (hash2 == NULL) {
    return KVTREE_SUCCESS;
  }
''','''  /* if hash2 is NULL, there is nothing to insert, so we're done */
  if (hash2 == NULL) {
    return KVTREE_SUCCESS;
  }

  /* mark the source as in use by taking its first element off and on */
  kvtree_elem* mark = kvtree_elem_first(hash2);
  if (mark != NULL) {
    LIST_REMOVE(mark, pointers);
    LIST_INSERT_HEAD((kvtree*) hash2, mark, pointers);
  }
''')]
pre=r'''
#include <pthread.h>
static kvtree* T; static volatile int wrong, stop;
static void* look(void* p) { int i; for (i = 0; i < 100000 && !wrong; i++) if (p) { kvtree* c = kvtree_new(); kvtree_merge(c, T); kvtree_delete(&c); } else { int q; for (q = 0; q < 100; q++) if (kvtree_get(T, "b") == NULL) wrong = 1; } return NULL; }
'''
flags='-lpthread'
demo=r'''
  T = kvtree_new(); int i; pthread_t t[4];
  kvtree_set(T, "a", kvtree_new()); kvtree_set(T, "b", kvtree_new());
  for (i = 0; i < 2; i++) pthread_create(&t[i], NULL, look, (void*)(long)(i % 2));
  for (i = 0; i < 2; i++) pthread_join(t[i], NULL);
  CHECK(!wrong);
'''
