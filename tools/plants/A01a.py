prop='A01'
needs='memory running out while a tree is created inside kvtree_new'
breaks="NULL is returned and stored as a key's subtree, the data that belongs there is lost silently"
edits=[
('src/kvtree.c',
r'''  kvtree* hash = (kvtree*) KVTREE_MALLOC(sizeof(kvtree));
  LIST_INIT(hash);
  return hash;''',
r'''  kvtree* hash = (kvtree*) malloc(sizeof(kvtree));
  if (hash != NULL) {
    LIST_INIT(hash);
  }
  return hash;'''),
]
pre=r'''
#include <dlfcn.h>
static long left = -1;
static int armed = 0;
extern void* __libc_malloc(size_t);
void* malloc(size_t n) { if (armed && left-- == 0) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
/* 0: call ended although an allocation failed, 1: stopped with a message, 2: no allocation failed */
static int oom(long k, void (*fn)(void)) {
  int p[2]; pipe(p); fflush(stdout);
  pid_t c = fork();
  if (!c) { dup2(p[1], 2); close(p[0]); left = k; armed = 1; fn(); armed = 0; _exit(left < 0 ? 77 : 78); }
  close(p[1]); char b[4096]; size_t n = 0; ssize_t r;
  while ((r = read(p[0], b + n, sizeof b - 1 - n)) > 0) n += r;
  close(p[0]); b[n] = 0;
  int st; waitpid(c, &st, 0);
  if (!WIFEXITED(st)) return 0;
  if (WEXITSTATUS(st) == 78) return 2;
  return WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 0 && n > 0;
}

static void fn(void) { kvtree* t = kvtree_new(); kvtree_util_set_str(t, "key", "value"); }
'''
demo=r'''
  kvtree* h; h = kvtree_new(); kvtree_delete(&h);
  long k; int r;
  for (k = 0; (r = oom(k, fn)) != 2 && k < 100; k++) CHECK(r == 1);
'''
