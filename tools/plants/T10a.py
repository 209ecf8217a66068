prop='T10'
needs='two threads that read scalars or pairs by number at the same time'
breaks='a thread may look up the number of the other'
edits=[('src/kvtree.c','''  char tmp[100];
  sprintf(tmp, "%d", val);
  return kvtree_get_kv(hash, key, tmp);''','''  static char tmp[100];
  sprintf(tmp, "%d", val);
  return kvtree_get_kv(hash, key, tmp);''')]
pre=r'''
#include <pthread.h>
static kvtree* T; static int wrong;
static void* look(void* p) { int v = (int)(long)p, i; for (i = 0; i < 3000000 && !wrong; i++) if (kvtree_get_kv_int(T, "k", v) != kvtree_get_kv_int(T, "k", v) || kvtree_get_kv_int(T, "k", v) == NULL) wrong = 1; return NULL; }
'''
flags='-lpthread'
demo=r'''
  T = kvtree_new(); int i; pthread_t t[4];
  static const int v[4] = {5, 100000007, -300, 77777};
  for (i = 0; i < 2; i++) kvtree_set_kv_int(T, "k", v[i]);
  for (i = 0; i < 2; i++) pthread_create(&t[i], NULL, look, (void*)(long)v[i]);
  for (i = 0; i < 2; i++) pthread_join(t[i], NULL);
  CHECK(!wrong);
  CHECK(kvtree_get_kv_int(T, "k", 6) == NULL);
'''
