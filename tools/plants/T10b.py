prop='T10'
needs='two threads that format keys at the same time'
breaks='the tokens of one call end up in the other'
edits=[('src/kvtree.c','''    /* get hash for this key */
    h = kvtree_get(h, key);

    /* get the next format string */
    token = strtok_r(NULL, search, &rest);''','''    /* get hash for this key */
    h = kvtree_get(h, key);

    /* get the next format string */
    static char* next;
    next = rest;
    token = strtok_r(NULL, search, &next);
    rest = next;''')]
pre=r'''
#include <pthread.h>
static kvtree* T; static int wrong;
static void* look(void* p) { int i; for (i = 0; i < 1000000 && !wrong; i++) if (p ? kvtree_getf(T, "%s %d %s", "a", 1, "b") == NULL : kvtree_getf(T, "%s %lu %lld %d", "c", 2ul, 3ll, 4) == NULL) wrong = 1; return NULL; }
'''
flags='-lpthread'
demo=r'''
  T = kvtree_new(); int i; pthread_t t[4];
  kvtree_setf(T, NULL, "%s %d %s", "a", 1, "b"); 
  kvtree_setf(T, kvtree_new(), "%s %d %s", "a", 1, "b");
  kvtree_setf(T, kvtree_new(), "%s %lu %lld %d", "c", 2ul, 3ll, 4);
  for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, look, (void*)(long)(i % 2));
  for (i = 0; i < 4; i++) pthread_join(t[i], NULL);
  CHECK(!wrong);
'''
