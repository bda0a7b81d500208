// Executable meaning of the specification intrinsics: replays one recorded
// counterexample against the real code.
#include "vf.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
struct entry { std::string kind, label; unsigned long long v; std::map<unsigned long long, unsigned> bytes; unsigned fill; };
std::vector<entry>* entries;
size_t pos_;
// table of live blocks (malloc'ed itself, so it does not disturb operator new)
struct blk { void* p; size_t n; int kind; bool live; };
blk* tab; size_t ntab, captab;
bool counting = false;
void* record(void* p, size_t n, int kind) {
  if (ntab == captab) { captab = captab ? captab * 2 : 256; tab = (blk*)realloc(tab, captab * sizeof(blk)); }
  for (size_t i = 0; i < ntab; ++i) if (tab[i].p == p) tab[i] = tab[--ntab], --i;
  tab[ntab++] = blk{p, n, kind, true};
  return p;
}
blk* find(const void* p) { for (size_t i = ntab; i-- > 0;) if (tab[i].p == p) return &tab[i]; return nullptr; }
[[noreturn]] void finish(int code, const char* what, const char* detail) {
  fprintf(stderr, "\nVF-RESULT %s: %s\n", what, detail);
  fflush(stderr);
  _exit(code);
}

// Search mode: inputs are drawn at random around the inputs of failed obligations
bool fuzzing = false;
char* lg; size_t lgn; const size_t LGMAX = 1 << 20;
std::vector<std::vector<entry>>* seeds; std::vector<unsigned long long>* dict; std::vector<unsigned char>* dictb;
std::vector<entry>* base; std::vector<unsigned long long>* seen; entry cur;
unsigned long long rs, mutp;
unsigned long long rnd() { rs += 0x9e3779b97f4a7c15ull; unsigned long long z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void say(const char* f, ...) { va_list a; va_start(a, f); if (lgn < LGMAX - 64) lgn += (size_t)vsnprintf(lg + lgn, LGMAX - lgn, f, a); va_end(a); }
unsigned long long number() {
  switch (rnd() % 16) {
    case 0: case 1: if (!dict->empty()) return (*dict)[rnd() % dict->size()] + (rnd() % 8 ? 0 : rnd() % 3 - 1);
    case 2: case 3: if (!seen->empty()) return (*seen)[rnd() % seen->size()] + (rnd() % 2 ? 0 : rnd() % 3 - 1);
    case 4: return (1ull << (rnd() % 64)) - rnd() % 2;
    case 5: return rnd() >> (rnd() % 64);
    case 6: return 0ull - rnd() % 3;
    case 7: return rnd() % 64;
    default: return rnd() % 8;
  }
}
entry& invent(const char* kind, const char* label, unsigned long long n) {
  const size_t at = pos_++;
  const entry* b = base && at < base->size() && (*base)[at].kind == kind && (*base)[at].label == label ? &(*base)[at] : nullptr;
  if (!b) base = nullptr;                 // the path has left the seed
  cur = entry(); cur.kind = kind; cur.label = label; cur.fill = 0;
  const bool keep = b && rnd() % 100 >= mutp;
  if (cur.kind == "bytes" || cur.kind == "block") {
    cur.v = n;
    const unsigned long long m = n < 4096 ? n : 256;
    for (unsigned long long i = 0; i < m; ++i) {
      unsigned v;
      if (b && (keep || rnd() % 100 >= mutp)) { auto it = b->bytes.find(i); v = it == b->bytes.end() ? b->fill : it->second; }
      else v = dictb->empty() || rnd() % 8 == 0 ? rnd() & 255 : (*dictb)[rnd() % dictb->size()];
      if (v) cur.bytes[i] = v;
    }
    say("%s %s %llu 0 %zu", kind, label, n, cur.bytes.size());
    for (auto& kv : cur.bytes) say(" %llu:%u", kv.first, kv.second);
    say("\n");
    return cur;
  }
  if (cur.kind == "1") cur.v = keep ? b->v : rnd() & 1;
  else {
    cur.v = keep ? b->v : n ? rnd() % n : number();
    if (cur.kind == "32") cur.v &= 0xffffffffull; else if (cur.kind == "16") cur.v &= 0xffff; else if (cur.kind == "8") cur.v &= 0xff;
    seen->push_back(cur.v);
  }
  say("%s %s %llu\n", kind, label, cur.v);
  return cur;
}
entry& nextent(const char* kind, const char* label, unsigned long long n = 0) {
  if (fuzzing) {
    counting = false;
    std::string want(label);
    for (char& c : want) if (c == ' ') c = '_';
    entry& e = invent(kind, want.c_str(), n);
    counting = true;
    return e;
  }
  if (pos_ >= entries->size()) finish(90, "diverged", "no more recorded inputs");
  entry& e = (*entries)[pos_++];
  std::string want(label);
  for (char& c : want) if (c == ' ') c = '_';
  if (e.kind != kind || e.label != want) {
    fprintf(stderr, "expected %s %s, recorded %s %s\n", kind, label, e.kind.c_str(), e.label.c_str());
    finish(90, "diverged", label);
  }
  return e;
}
void* getmem(size_t n) {
  if (fuzzing && n > (size_t(1) << 24)) finish(91, "toolarge", "not searched");
  if (n > (size_t(1) << 31)) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) finish(91, "toolarge", "cannot map object");
    return p;
  }
  return malloc(n);
}
void* fill(size_t n, entry& e) {
  void* p = getmem(n);
  if (n <= (size_t(1) << 26)) memset(p, (int)e.fill, n);
  for (auto& kv : e.bytes) if (kv.first < n) ((unsigned char*)p)[kv.first] = (unsigned char)kv.second;
  return p;
}
}

extern "C" {
uint8_t vf_u8(const char* l) { return (uint8_t)nextent("8", l).v; }
uint16_t vf_u16(const char* l) { return (uint16_t)nextent("16", l).v; }
uint32_t vf_u32(const char* l) { return (uint32_t)nextent("32", l).v; }
uint64_t vf_u64(const char* l) { return nextent("64", l).v; }
bool vf_bool(const char* l) { return nextent("1", l).v & 1; }
bool vf_ghost_bool(const char* l) { return nextent("1", l).v & 1; }
uint32_t vf_choose(uint32_t n, const char* l) { return (uint32_t)nextent("32", l, n).v; }
void* vf_bytes(size_t n, const char* l) { entry& e = nextent("bytes", l, n); return record(fill(n, e), n, 2); }
void* vf_bytes_in(size_t n, const char* l, const char* ranges) {
  entry& e = nextent("bytes", l, n);
  if (n > (size_t(1) << 26)) finish(91, "toolarge", "not filled");
  unsigned char* p = (unsigned char*)fill(n, e);
  for (size_t i = 0; i < n; ++i) {
    bool in = false;
    for (const unsigned char* r = (const unsigned char*)ranges; *r; r += 2) in |= p[i] >= r[0] && p[i] <= r[1];
    if (!in) p[i] = (unsigned char)ranges[0];
  }
  return record(p, n, 2);
}
void* vf_block(size_t n, const char* l) { entry& e = nextent("block", l, n); return record(fill(n, e), n, 1); }
void vf_assume(bool c) { if (!c) finish(92, "assumption", "an assumption of the harness does not hold natively"); }
void vf_assert(bool c, const char* l) { if (!c) finish(66, "VIOLATED", l); }
void vf_requires(bool c, const char* l) { if (!c) finish(66, "VIOLATED", l); }
void vf_cover(const char*) {}
void vf_expect_cover(const char*) {}
void vf_seq(size_t, uint8_t) {}
void vf_fact(const void*, bool) {}
void vf_num(uint64_t) {}
void vf_byte(const void*, uint8_t) {}
void vf_stop() { finish(0, "done", "stop"); }
size_t vf_heap_live() { size_t k = 0; for (size_t i = 0; i < ntab; ++i) if (tab[i].live && tab[i].kind == 1) ++k; return k; }
static blk* owner(const void* p) { for (size_t i = ntab; i-- > 0;) if (tab[i].live && (const char*)p >= (const char*)tab[i].p && (const char*)p <= (const char*)tab[i].p + tab[i].n) return &tab[i]; return nullptr; }
bool vf_same(const void* a, const void* b) { return owner(a) == owner(b); }
bool vf_is_live(const void* p) { blk* b = find(p); return b && b->live; }
size_t vf_block_size(const void* p) { blk* b = find(p); return b && b->live ? b->n : 0; }
void vf_enforce(const char*) {}
void* vf_raw_new(size_t n) {
  bool c = counting;
  void* p = getmem(n ? n : 1);
  if (c) record(p, n, 1);
  return p;
}
void vf_throw_bad_alloc() { throw std::bad_alloc(); }
void* vf_new_hook(size_t n) __attribute__((weak));
}

static int inhook = 0;
void* operator new(size_t n) {
  if (counting && vf_new_hook && !inhook) { return vf_new_hook(n); }
  return vf_raw_new(n);
}
void* operator new[](size_t n) { return operator new(n); }
static void del(void* p, size_t n, bool sized) {
  if (!p) return;
  if (counting) {
    blk* b = find(p);
    if (!b || b->kind != 1) { if (b) finish(66, "VIOLATED", "deallocation of a foreign block"); free(p); return; }
    if (!b->live) finish(66, "VIOLATED", "double free");
    if (sized && b->n != n) finish(66, "VIOLATED", "deallocation size differs from allocation size");
    b->live = false;
    if (b->n > (size_t(1) << 31)) return;
    free(p);
    return;
  }
  blk* b = find(p);
  if (b) { if (!b->live) return; b->live = false; if (b->n > (size_t(1) << 31)) return; }
  free(p);
}
void operator delete(void* p) noexcept { del(p, 0, false); }
void operator delete[](void* p) noexcept { del(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { del(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { del(p, n, true); }

extern "C" void VF_ENTRY();

static void on_terminate() { finish(66, "VIOLATED", "std::terminate called"); }

static bool parse(FILE* f, std::vector<entry>& out, bool& more) {
  char kind[32], label[256];
  unsigned long long v, nb;
  more = false;
  while (fscanf(f, "%31s %255s %llu", kind, label, &v) == 3) {
    if (!strcmp(kind, "end")) { more = true; return true; }
    entry e; e.kind = kind; e.label = label; e.v = v; e.fill = 0;
    if (e.kind == "bytes" || e.kind == "block") {
      unsigned fl;
      if (fscanf(f, "%u %llu", &fl, &nb) != 2) return false;
      e.fill = fl;
      for (unsigned long long i = 0; i < nb; ++i) {
        unsigned long long k; unsigned b;
        if (fscanf(f, "%llu:%u", &k, &b) != 2) return false;
        e.bytes[k] = b;
      }
    }
    out.push_back(e);
  }
  return true;
}
static void run() {
  std::set_terminate(on_terminate);
  counting = true;
  VF_ENTRY();
  counting = false;
  finish(0, "done", "no violation");
}
// exe --fuzz SEEDS DICT OUT SECONDS RNG: exit 0 and an input in OUT if a violation was found
static int fuzz(char** a) {
  seeds = new std::vector<std::vector<entry>>(); dict = new std::vector<unsigned long long>(); dictb = new std::vector<unsigned char>(); seen = new std::vector<unsigned long long>();
  if (FILE* f = fopen(a[0], "r")) {
    bool more = true;
    while (more) { std::vector<entry> e; if (!parse(f, e, more)) break; if (!e.empty()) seeds->push_back(e); }
    fclose(f);
  }
  if (FILE* f = fopen(a[1], "r")) {
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) { dict->push_back(v); if (v < 256) dictb->push_back((unsigned char)v); }
    fclose(f);
  }
  lg = (char*)mmap(nullptr, LGMAX + sizeof(size_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const double secs = atof(a[3]);
  timespec t0, t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
  unsigned long long i = 0, hits = 0, rejected = 0;
  for (;; ++i) {
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    if (double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec) > secs) break;
    lg[0] = 0;
    const pid_t p = fork();
    if (p < 0) break;
    if (p == 0) {
      rlimit l = {2, 2}; setrlimit(RLIMIT_CPU, &l);
      signal(SIGALRM, SIG_DFL); alarm(3);
      if (!freopen("/dev/null", "w", stderr)) _exit(95);
      rs = i * 0x632be59bd9b4e019ull + strtoull(a[4], nullptr, 10);
      fuzzing = true;
      mutp = (unsigned long long[]){2, 10, 30, 100}[rnd() % 4];
      base = seeds->empty() || mutp == 100 ? nullptr : &(*seeds)[rnd() % seeds->size()];
      run();
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    const int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0, rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    rejected += rc == 92 || rc == 91;
    if (rc == 66 || rc == 77 || rc == 78 || sig == SIGSEGV || sig == SIGABRT || sig == SIGBUS || sig == SIGFPE || sig == SIGILL || sig == SIGTRAP) {
      FILE* f = fopen(a[2], "w");
      fputs(lg, f); fclose(f);
      hits = 1; break;
    }
  }
  printf("%llu runs, %llu rejected, %llu violations\n", i, rejected, hits);
  return hits ? 0 : 1;
}

int main(int argc, char** argv) {
  if (argc == 7 && !strcmp(argv[1], "--fuzz")) return fuzz(argv + 2);
  entries = new std::vector<entry>();
  FILE* f = fopen(argv[1], "r");
  if (!f) return 3;
  bool more;
  if (!parse(f, *entries, more)) return 3;
  fclose(f);
  run();
}
