// Native replay driver: the same harness, compiled without the symbolic engine, run on
// concrete inputs.  usage: prog INPUT...   For each input prints one line:
//   <file> ok <digest> | violation <id> | crash <what> | pruned
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include "symx.h"
typedef unsigned char u8; typedef unsigned long long u64;
static std::vector<u8> in; static size_t pos; static u64 h = 1469598103934665603ull;
struct Res { int kind; char id[200]; u64 h; }; static Res *res;
static long live_n = 0;
static int cur_exit = 0;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));
static void fin(int k, const char *id) { res->kind = k; res->h = h; strncpy(res->id, id, 199); fflush(0); _exit(0); }
static void put(u64 v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
extern "C" {
unsigned char symx_byte(void) { return pos < in.size() ? in[pos++] : (pos++, 0); }
unsigned symx_choose(unsigned n) { if (n <= 1) return 0; unsigned v = symx_byte(); if (n < 256 && v >= n) fin(3, "out-of-range choice"); return v; }
unsigned symx_concrete(unsigned v) { return v; }
void symx_assume(bool c) { if (!c) fin(3, "assume"); }
void symx_check(bool c, const char *id) { if (!c) fin(2, id); }
void symx_fail(const char *id) { fin(2, id); }
void symx_reach(const char *) {}
void symx_observe(const void *p, size_t n) { for (size_t i = 0; i < n; ++i) put(((const u8 *)p)[i]); }
void symx_observe_u64(unsigned long long v) { put(v); }
long symx_live(void) { return live_n; }
int symx_replaying(void) { return getenv("REPLAY_NOTES") != 0; }
void symx_note(const char *f, ...) { if (!getenv("REPLAY_NOTES")) return; va_list ap; va_start(ap, f); printf("    note: "); vprintf(f, ap); printf("\n"); va_end(ap); fflush(stdout); }
static char outbuf[4096];
int symx_tier(void) { const char *v = getenv("SYMX_TIER"); return v ? atoi(v) : 0; }
int symx_param(const char *name, int d) { std::string k = std::string("SYMX_P_") + name; const char *v = getenv(k.c_str()); return v ? atoi(v) : d; }
const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:handle_abort=0:detect_container_overflow=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:max_allocation_size_mb=2048:allocator_may_return_null=0"; }
}
static void hm(const volatile void *, size_t) { live_n++; }
static void hf(const volatile void *p) { if (p) live_n--; }
int main(int argc, char **argv) {
  setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
  res = (Res *)mmap(0, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int rc = 0, lim = getenv("REPLAY_TIMEOUT") ? atoi(getenv("REPLAY_TIMEOUT")) : 20;
  for (int a = 1; a < argc; ++a) {
    FILE *f = fopen(argv[a], "rb"); if (!f) { printf("%s missing\n", argv[a]); rc = 1; continue; }
    in.clear(); int c; while ((c = fgetc(f)) != EOF) in.push_back((u8)c); fclose(f);
    if (getenv("REPLAY_SAMPLE")) { if (in.size() >= 8) in.erase(in.begin(), in.begin() + 8); }
    res->kind = -1; fflush(0);
    pid_t p = fork();
    if (p == 0) {
      alarm(lim);
      if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hm, hf);
      try { symx_main(); } catch (...) { fin(4, "uncaught"); }
      fin(0, ""); }
    int st; waitpid(p, &st, 0);
    if (res->kind == 0) printf("%s ok %llu\n", argv[a], res->h);
    else if (res->kind == 2) { printf("%s violation %s\n", argv[a], res->id); rc = 1; }
    else if (res->kind == 3) printf("%s pruned %s\n", argv[a], res->id);
    else if (res->kind == 4) { printf("%s crash uncaught-exception\n", argv[a]); rc = 1; }
    else { rc = 1; if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("%s crash hang\n", argv[a]); else if (WIFSIGNALED(st)) printf("%s crash signal-%d\n", argv[a], WTERMSIG(st)); else printf("%s crash exit-%d\n", argv[a], WEXITSTATUS(st)); }
  }
  return rc;
}
