prop='A01'
needs='memory running out while the element of a new key is created'
breaks='the key is not stored and the setters report success'
edits=[
('src/kvtree.c',
r'''  kvtree_elem* elem = (kvtree_elem*) KVTREE_MALLOC(sizeof(kvtree_elem));
  elem->key  = NULL;
  elem->hash = NULL;
''',
r'''  kvtree_elem* elem = (kvtree_elem*) calloc(1, sizeof(kvtree_elem));
'''),
('src/kvtree.c',
r'''    elem = kvtree_elem_new();
    kvtree_elem_init(elem, key, hash_value);
  } else {''',
r'''    elem = kvtree_elem_new();
    if (elem == NULL) {
      return NULL;
    }
    kvtree_elem_init(elem, key, hash_value);
  } else {'''),
]
pre=r'''
#include <dlfcn.h>
static long left = -1;
static int armed = 0;
extern void* __libc_malloc(size_t);
void* malloc(size_t n) { if (armed && left-- == 0) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
/* 0: call ended although an allocation failed, 1: stopped with a message, 2: no allocation failed */
static int oom(long k, void (*fn)(void)) {
  int p[2]; pipe(p); fflush(stdout);
  pid_t c = fork();
  if (!c) { dup2(p[1], 2); close(p[0]); left = k; armed = 1; fn(); armed = 0; _exit(left < 0 ? 77 : 78); }
  close(p[1]); char b[4096]; size_t n = 0; ssize_t r;
  while ((r = read(p[0], b + n, sizeof b - 1 - n)) > 0) n += r;
  close(p[0]); b[n] = 0;
  int st; waitpid(c, &st, 0);
  if (!WIFEXITED(st)) return 0;
  if (WEXITSTATUS(st) == 78) return 2;
  return WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 0 && n > 0;
}

extern void* __libc_calloc(size_t, size_t);
void* calloc(size_t a, size_t n) { if (armed && left-- == 0) { errno = ENOMEM; return NULL; } return __libc_calloc(a, n); }
static void fn(void) { kvtree* t = kvtree_new(); kvtree_set(t, "key", NULL); kvtree_set(t, "key2", NULL); }
'''
demo=r'''
  long k; int r;
  for (k = 0; (r = oom(k, fn)) != 2 && k < 100; k++) CHECK(r == 1);
'''
