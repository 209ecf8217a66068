/* Trees around and beyond 4 GiB, for S02 and S03.  Runs without AddressSanitizer, in a process of its own.
 * big persist KEYLEN       : the persisted form of a tree with one key of that length
 * big file FILESIZE CALL F : a file of that size written and read back (CALL: 0 plain, 1 locked, 2 read-modify-write)
 * exit 0: as it should be, 1: the property is broken (text on stdout), 77: not enough memory or room to say */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <zlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include "kvtree.h"

#define BAD(...) do { printf(__VA_ARGS__); putchar('\n'); fflush(stdout); _exit(1); } while (0)
#define SKIP() _exit(77)
enum { PIECE = 1 << 20, HEAD = 20 };
static char piece[PIECE];

int kvtree_write_persist(void** buf, size_t* size, const kvtree* hash);

static uint64_t available(void) {
  FILE* f = fopen("/proc/meminfo", "r");
  char l[200];
  unsigned long long kb = 0;
  while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
  if (f) fclose(f);
  return kb << 10;
}
/* a key of n bytes in a mapping that repeats one piece: takes no memory to speak of */
static char* alias(size_t n) {
  int fd = memfd_create("piece", 0);
  if (fd < 0 || ftruncate(fd, PIECE) || pwrite(fd, piece, PIECE, 0) != PIECE) SKIP();
  size_t total = n / PIECE * PIECE;
  char* m = mmap(NULL, total + 2 * PIECE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) SKIP();
  for (size_t at = 0; at < total; at += PIECE)
    if (mmap(m + at, PIECE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) SKIP();
  memcpy(m + total, piece, n - total);
  close(fd);
  return m;
}
static int same_key(const char* k, size_t n) {
  for (size_t at = 0; at < n; at += PIECE) if (memcmp(k + at, piece, n - at < PIECE ? n - at : PIECE)) return 0;
  return k[n] == 0;
}
static uint64_t be(const unsigned char* p, int n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }

static kvtree* tree(size_t n) {
  char* k = alias(n);
  kvtree* h = kvtree_new();
  kvtree_set(h, k, kvtree_new());
  munmap(k, n / PIECE * PIECE + 2 * PIECE);
  return h;
}
static void persist(size_t n) {
  if (available() < 2 * n + (4ull << 30)) SKIP();
  kvtree* h = tree(n);
  void* buf = NULL;
  size_t size = 0, want = HEAD + 4 + n + 1 + 4 + 4;
  if (kvtree_write_persist(&buf, &size, h) != KVTREE_SUCCESS) BAD("a tree with a key of %zu bytes is not persisted", n);
  if (size != want) BAD("a tree with a key of %zu bytes takes %zu bytes, not %zu", n, size, want);
  const unsigned char* p = buf;
  if (be(p, 4) != 0x951fc3f5 || be(p + 4, 2) != 1 || be(p + 6, 2) != 1 || be(p + 8, 8) != want || be(p + 16, 4) != 1)
    BAD("wrong header for a file of %zu bytes", want);
  if (be(p + 20, 4) != 1 || !same_key((const char*)p + 24, n) || be(p + 24 + n + 1, 4) != 0) BAD("wrong body for a file of %zu bytes", want);
  uLong crc = crc32(0, NULL, 0);
  for (size_t at = 0; at < want - 4; at += PIECE) crc = crc32(crc, p + at, want - 4 - at < PIECE ? want - 4 - at : PIECE);
  if (be(p + want - 4, 4) != (crc & 0xffffffff))
    BAD("the CRC of a file of %zu bytes is %08lx, not %08lx", want, (unsigned long)be(p + want - 4, 4), (unsigned long)crc);
}
static void file(size_t size, int call, const char* name) {
  size_t n = size - (HEAD + 4 + 1 + 4 + 4);
  struct statvfs vfs;
  char dir[4096];
  snprintf(dir, sizeof dir, "%s", name);
  *strrchr(dir, '/') = 0;
  if (available() < 4 * size + (4ull << 30) || statvfs(dir, &vfs) || (uint64_t)vfs.f_bavail * vfs.f_bsize < size + (8ull << 30)) SKIP();
  kvtree* h = tree(n);
  int fd = -1, rc;
  if (call == 1) rc = kvtree_write_with_lock(name, h);
  else if (call == 2) {
    kvtree* old = kvtree_new();
    rc = kvtree_lock_open_read(name, &fd, old);
    if (rc == KVTREE_SUCCESS) rc = kvtree_write_close_unlock(name, &fd, h);
    kvtree_delete(&old);
  } else rc = kvtree_write_file(name, h);
  if (rc != KVTREE_SUCCESS) BAD("writing a file of %zu bytes fails", size);
  kvtree_delete(&h);
  struct stat st;
  if (stat(name, &st) || (size_t)st.st_size != size) BAD("the file has %lld bytes, not %zu", (long long)st.st_size, size);
  kvtree* d = kvtree_new();
  if (call == 1) rc = kvtree_read_with_lock(name, d);
  else if (call == 2) { fd = -1; rc = kvtree_lock_open_read(name, &fd, d); if (fd >= 0) close(fd); }
  else rc = kvtree_read_file(name, d);
  unlink(name);
  if (rc != KVTREE_SUCCESS) BAD("reading a file of %zu bytes fails", size);
  kvtree_elem* e = kvtree_elem_first(d);
  if (kvtree_size(d) != 1 || strlen(kvtree_elem_key(e)) != n || !same_key(kvtree_elem_key(e), n) || kvtree_size(kvtree_elem_hash(e)) != 0)
    BAD("the tree read from a file of %zu bytes is not the one written", size);
}
int main(int argc, char** argv) {
  struct rlimit rl;
  if (argc < 3) return 77;
  if (getrlimit(RLIMIT_FSIZE, &rl) == 0) { rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); }
  uint64_t x = 1;
  for (size_t i = 0; i < PIECE; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; piece[i] = (char)(x >> 33) ? (char)(x >> 33) : 'z'; }
  if (!strcmp(argv[1], "persist")) persist(strtoull(argv[2], NULL, 10));
  else if (argc > 4) file(strtoull(argv[2], NULL, 10), atoi(argv[3]), argv[4]);
  else return 77;
  return 0;
}
