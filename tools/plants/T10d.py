prop='T10'
needs='two threads that sort trees of their own in different directions at the same time'
breaks='a tree ends up in the order the other thread asked for, or in none'
edits=[('src/kvtree.c','''/** sort strings in ascending order */
static int kvtree_cmp_fn_str_asc(const void* a, const void* b)
{
  struct sort_elem_str* elem_a = (struct sort_elem_str*) a;
  struct sort_elem_str* elem_b = (struct sort_elem_str*) b;
  const char* str_a = elem_a->key;
  const char* str_b = elem_b->key;
  int cmp = strcmp(str_a, str_b);
  return cmp;
}
''','''static int sort_sign = 1;

/** sort strings in the current direction */
static int kvtree_cmp_fn_str_asc(const void* a, const void* b)
{
  struct sort_elem_str* elem_a = (struct sort_elem_str*) a;
  struct sort_elem_str* elem_b = (struct sort_elem_str*) b;
  const char* str_a = elem_a->key;
  const char* str_b = elem_b->key;
  int cmp = strcmp(str_a, str_b);
  return sort_sign * cmp;
}
'''),('src/kvtree.c','''  fn = &kvtree_cmp_fn_str_asc;
  if (direction == KVTREE_SORT_DESCENDING) {
    fn = &kvtree_cmp_fn_str_desc;
  }
''','''  fn = &kvtree_cmp_fn_str_asc;
  sort_sign = (direction == KVTREE_SORT_DESCENDING) ? -1 : 1;
''')]
pre=r'''
#include <pthread.h>
static volatile int wrong;
static void* run(void* p) {
  int i, j; char k[20];
  for (i = 0; i < 3000 && !wrong; i++) {
    kvtree* t = kvtree_new();
    for (j = 0; j < 100; j++) { sprintf(k, "%02d", (j * 37) % 100); kvtree_set(t, k, NULL); }
    kvtree_sort(t, p ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING);
    kvtree_elem* e = kvtree_elem_first(t);
    for (j = 0; j < 100; j++, e = kvtree_elem_next(e)) { sprintf(k, "%02d", p ? 99 - j : j); if (strcmp(kvtree_elem_key(e), k)) { wrong = 1; break; } }
    kvtree_delete(&t);
  }
  return NULL;
}
'''
flags='-lpthread'
demo=r'''
  pthread_t t[4]; int i;
  for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, run, (void*)(long)(i % 2));
  for (i = 0; i < 4; i++) pthread_join(t[i], NULL);
  CHECK(!wrong);
'''
