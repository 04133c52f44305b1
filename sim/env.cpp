#include "env.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
#include <exception>
#include <ext/stdio_sync_filebuf.h>

const char* counterName[K_N] = {"allocations", "alloc_failures", "clock_reads", "clock_faults", "random_draws", "reads", "read_eio", "read_short", "read_eintr", "read_truncated", "read_bitflip",
    "writes", "write_enospc", "write_short", "write_eintr", "stdout_writes", "stdout_faults", "opens", "open_failures", "heap_layouts", "heap_fills", "commands_blocked", "write_eio", "heap_exhausted", "guarded_blocks", "close_failures", "rename_failures"};

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t); }

struct Shared { ll k[K_N]; ll readBytes, virtualNs; ll outLen; int returned; int overflow; char out[1]; };
static const size_t OUTCAP = 8u << 20;
static Shared* sh = nullptr;

static bool on = false;
static EnvPlan* P = nullptr;

// ------------------------------------------------------------------ heap --
static char *AB = nullptr, *AE = nullptr, *lo = nullptr, *hi = nullptr;
static const size_t ASZ = 1536ull << 20;
struct Hdr { size_t size; uint32_t cls; uint32_t magic; };
static const uint32_t MAGIC = 0x51b0a110;
struct FreeN { FreeN* next; };
static const int NC = 192;
static FreeN* fl[NC]; static ll flc[NC];
static ull lrng = 0;
static ull lnext() { lrng ^= lrng << 13; lrng ^= lrng >> 7; lrng ^= lrng << 17; return lrng; }
static int clsOf(size_t n) { if (n == 0) n = 1; if (n <= 1024) return (int)((n + 15) / 16); int c = 65; size_t s = 2048; while (s < n) { s <<= 1; c++; } return c; }
static size_t clsSize(int c) { return c <= 64 ? (size_t)c * 16 : (size_t)2048 << (c - 65); }
static inline bool mine(void* p) { return (char*)p >= AB && (char*)p < AE; }

static void refill(void* u, size_t s) {
    int fill = P ? P->fill : 0;
    if (fill == 0) memset(u, 0, s); else if (fill == 1) memset(u, 0xAA, s); else if (fill == 2) memset(u, 0xFF, s);
    else { ull x = lrng ? lrng : 1; for (size_t i = 0; i + 8 <= s; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; memcpy((char*)u + i, &x, 8); } lrng ^= x; if (!lrng) lrng = 1; }
}
// a block that ends where mapped memory ends: touching what lies behind it, or the block after it was freed, is a segmentation fault
static const uint32_t GMAGIC = 0x6a4dced0;
static ll guards = 0; static ull grng = 1;
static ull gnext() { grng ^= grng << 13; grng ^= grng >> 7; grng ^= grng << 17; return grng; }
static void* guarded(size_t n) {
    size_t s = (n + 15) / 16 * 16; if (!s) s = 16; size_t pages = (s + sizeof(Hdr) + 4095) / 4096 * 4096;
    char* top = (char*)((ull)hi & ~4095ull); if (top - pages - 4096 <= lo + (64 << 20)) return nullptr;
    char* end = top - 4096; if (mprotect(end, 4096, PROT_NONE)) return nullptr; hi = end - pages; guards++; sh->k[K_GUARD]++;
    char* u = end - s; Hdr* h = (Hdr*)u - 1; h->size = n; h->cls = 0; h->magic = GMAGIC; refill(u, s); return u;
}
static void* arena_alloc(size_t n) {
    if (sh) sh->k[K_ALLOC]++;
    static ll idx = 0;
    if (P && P->failAlloc >= 0 && n >= (size_t)P->failMinSize) {
        ll i = idx++;
        if (i == P->failAlloc || (P->failForever && i > P->failAlloc)) { sh->k[K_ALLOCFAIL]++; errno = ENOMEM; return nullptr; }
    }
    if (n > ASZ / 2) { errno = ENOMEM; return nullptr; }
    if (P && P->guard && n <= 16384 && guards < 6000 && gnext() % P->guard == 0) if (void* u = guarded(n)) return u;
    int c = clsOf(n); size_t s = clsSize(c), tot = s + sizeof(Hdr);
    FreeN* f = nullptr;
    int lay = P ? P->layout : 0;
    if (lay == 2 && s <= 1024 && flc[c] < 8) {
        // carve a batch of slots and thread them in a pseudo-random order
        int m = 16; char* slot[16];
        if (lo + tot * m < hi) {
            for (int i = 0; i < m; i++) { slot[i] = lo; lo += tot; }
            for (int i = m - 1; i > 0; i--) { int j = (int)(lnext() % (i + 1)); std::swap(slot[i], slot[j]); }
            for (int i = 0; i < m; i++) { Hdr* h = (Hdr*)slot[i]; h->cls = c; h->magic = MAGIC; FreeN* x = (FreeN*)(h + 1); x->next = fl[c]; fl[c] = x; flc[c]++; }
        }
    }
    if (fl[c]) {
        if (lay == 2 && flc[c] > 1) { int d = (int)(lnext() % std::min<ll>(flc[c], 6)); FreeN** pp = &fl[c]; while (d--) pp = &(*pp)->next; f = *pp; *pp = f->next; }
        else { f = fl[c]; fl[c] = f->next; }
        flc[c]--;
    }
    Hdr* h;
    if (f) h = (Hdr*)f - 1;
    else if (lay == 1) { if (hi - tot <= lo) { sh->k[K_HEAPFULL]++; errno = ENOMEM; return nullptr; } hi -= tot; h = (Hdr*)hi; }
    else { if (lo + tot >= hi) { sh->k[K_HEAPFULL]++; errno = ENOMEM; return nullptr; } h = (Hdr*)lo; lo += tot; }
    h->size = n; h->cls = c; h->magic = MAGIC;
    void* u = h + 1;
    if (s <= 65536) refill(u, s);
    return u;
}
static void arena_free(void* p) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == GMAGIC) { char* a = (char*)((ull)h & ~4095ull); char* b = (char*)p + (h->size + 15) / 16 * 16; if (b == p) b += 16; mprotect(a, b - a, PROT_NONE); return; }
    if (h->magic != MAGIC) { static const char m[] = "simulated heap: invalid or double free\n"; (void)!syscall(SYS_write, 2, m, sizeof m - 1); _exit(134); }
    h->magic = 0xdeadbeef;
    size_t s = clsSize(h->cls);
    if (P && P->poison && s <= 65536) memset(p, 0xDD, s);
    if (P && P->layout == 3 && lo - AB < (ptrdiff_t)(ASZ / 4)) return;   // freed blocks are not used again while there is room
    FreeN* x = (FreeN*)p; x->next = fl[h->cls]; fl[h->cls] = x; flc[h->cls]++;
}
extern "C" {
void* malloc(size_t n) { return on ? arena_alloc(n) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (mine(p)) arena_free(p); else __libc_free(p); }
void* calloc(size_t a, size_t b) {
    if (!on) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = arena_alloc(n); if (p) memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (mine(p)) {
        if (n == 0) { free(p); return nullptr; }
        Hdr* h = (Hdr*)p - 1; void* q = arena_alloc(n); if (!q) return nullptr;
        memcpy(q, p, std::min(n, h->size)); arena_free(p); return q;
    }
    if (on) { // block from before the simulation started: its size is unknown, keep it where it is
        return __libc_realloc(p, n);
    }
    return __libc_realloc(p, n);
}
static void* aligned_(size_t al, size_t n) {
    if (!on) return __libc_memalign(al, n);
    if (al <= 16) return arena_alloc(n);
    return __libc_memalign(al, n);
}
void* memalign(size_t al, size_t n) { return aligned_(al, n); }
void* aligned_alloc(size_t al, size_t n) { return aligned_(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = aligned_(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void* valloc(size_t n) { return aligned_(4096, n); }
size_t malloc_usable_size(void* p) { if (!p) return 0; if (mine(p)) return ((Hdr*)p - 1)->size; static size_t (*r)(void*) = nullptr; if (!r) r = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size"); return r(p); }
}

// ---------------------------------------------------------------- clocks --
static ll vclock = 1000000000000LL, vreal = 1700000000000000000LL; static ull crng = 88172645463325252ULL; static ll cticks = 0;
static ull cnext() { crng ^= crng << 13; crng ^= crng >> 7; crng ^= crng << 17; return crng; }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!on) return (int)syscall(SYS_clock_gettime, id, ts);
    sh->k[K_CLOCK]++; cticks++;
    ll step = 1000;
    switch (P->clock) {
        case 1: step = 0; sh->k[K_CLOCKFAULT]++; break;
        case 2: step = (cticks % 7 == 0) ? 10000000 : 0; sh->k[K_CLOCKFAULT]++; break;
        case 3: case 5: if (cnext() % 3 == 0) { step = (ll)(cnext() % (P->clock == 3 ? 600000000000ULL : 4000000000000000ULL)); sh->k[K_CLOCKFAULT]++; } break;
        case 4: if (cnext() % 2 == 0) { vreal -= (ll)(cnext() % 90000000000000ULL); sh->k[K_CLOCKFAULT]++; } break;
        default: break;
    }
    vclock += step; vreal += step; sh->virtualNs += step;
    ll v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? vreal : vclock;
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
extern "C" clock_t clock(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (clock_t)(ts.tv_sec * 1000000LL + ts.tv_nsec / 1000); }

// ---------------------------------------------------------- random numbers
static ull rrng = 0;
extern "C" int rand(void) {
    if (!on) return (int)(mix64(rrng++) & 0x7fffffff);
    sh->k[K_RAND]++;
    switch (P->rnd) { case 0: return 0; case 1: return RAND_MAX; case 2: return (int)((sh->k[K_RAND]) & 0x7fffffff); default: rrng++; return (int)(mix64(rrng ^ P->rndSeed) & 0x7fffffff); }
}
extern "C" void srand(unsigned) {}
extern "C" long random(void) { return rand(); }
extern "C" int system(const char*) { if (sh) sh->k[K_SYSTEM]++; errno = EPERM; return -1; }
extern "C" FILE* fopen(const char*, const char*);
extern "C" FILE* popen(const char*, const char*) { if (sh) sh->k[K_SYSTEM]++; errno = EPERM; return fopen("/dev/null", "r"); }
extern "C" int pclose(FILE* f) { if (f) fclose(f); return -1; }

// ------------------------------------------------------------------ files --
static unsigned char fdkind[1024];     // 1: simulated storage
static ll nread = 0, wrOff = 0, opens = 0;
static std::string* scr = nullptr;
static bool simpath(const char* p) { return on && scr && p && strstr(p, scr->c_str()) != nullptr; }
static bool openFault(const char* path) {
    if (!simpath(path)) return false;
    sh->k[K_OPEN]++;
    if (P->openFailAt >= 0 && opens++ == P->openFailAt) { sh->k[K_OPENFAIL]++; errno = P->openFail ? P->openFail : EMFILE; return true; }
    return false;
}
static void mark(int fd, const char* path) { if (fd >= 0 && fd < 1024) fdkind[fd] = simpath(path) ? 1 : 0; }
extern "C" {
ssize_t read(int, void*, size_t); ssize_t write(int, const void*, size_t); int close(int);
int open(const char* path, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (openFault(path)) return -1; int fd = (int)syscall(SYS_openat, AT_FDCWD, path, fl, m); mark(fd, path); return fd; }
int open64(const char* path, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (openFault(path)) return -1; int fd = (int)syscall(SYS_openat, AT_FDCWD, path, fl, m); mark(fd, path); return fd; }
static FILE* simfopen(const char* path, const char* mode, void* from) {
    static FILE* (*real)(const char*, const char*) = nullptr; if (!real) real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    Dl_info who; bool streams = dladdr(from, &who) && who.dli_fname && strstr(who.dli_fname, "libstdc++");   // C++ streams read and write the descriptor themselves
    if (!simpath(path) || streams) { if (openFault(path)) return nullptr; FILE* f = real(path, mode); if (f) mark(fileno(f), path); return f; }
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY; if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC; if (mode[0] == 'a') fl |= O_CREAT | O_APPEND; if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = open(path, fl, 0666); if (fd < 0) return nullptr;
    cookie_io_functions_t io = {[](void* c, char* b, size_t n) -> ssize_t { return read((int)(intptr_t)c, b, n); }, [](void* c, const char* b, size_t n) -> ssize_t { ssize_t r = write((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; },
        [](void* c, off64_t* o, int w) -> int { off64_t r = lseek64((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }, [](void* c) -> int { return close((int)(intptr_t)c); }};
    return fopencookie((void*)(intptr_t)fd, mode, io);
}
FILE* fopen(const char* path, const char* mode) { return simfopen(path, mode, __builtin_return_address(0)); }
FILE* fopen64(const char* path, const char* mode) { return simfopen(path, mode, __builtin_return_address(0)); }
int mkdir(const char* p, mode_t m) { if (P && P->mkdirFail && simpath(p)) { sh->k[K_OPENFAIL]++; errno = ENOSPC; return -1; } return (int)syscall(SYS_mkdir, p, m); }
static bool closeFault(int fd) {
    static ll closes = 0; if (!on || fd < 0 || fd >= 1024 || !fdkind[fd] || P->closeFailAt < 0) return false;
    int fl = (int)syscall(SYS_fcntl, fd, F_GETFL, 0); if (fl < 0 || (fl & O_ACCMODE) == O_RDONLY || closes++ != P->closeFailAt) return false;
    sh->k[K_CLOSEFAIL]++; return true;
}
int fclose(FILE* f) {
    static int (*real)(FILE*) = nullptr; if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int fd = f ? fileno(f) : -1; bool bad = closeFault(fd); if (fd >= 0 && fd < 1024) fdkind[fd] = 0;
    int r = real(f); if (bad) { errno = P->closeFail; return EOF; } return r;
}
static bool renameFault(const char* a) { if (!on || !P->renameFail || !(simpath(a) || (a && a[0] != '/'))) return false; sh->k[K_RENAMEFAIL]++; errno = P->renameFail; return true; }
int rename(const char* a, const char* b) { return renameFault(a) ? -1 : (int)syscall(SYS_rename, a, b); }
int renameat(int x, const char* a, int y, const char* b) { return renameFault(a) ? -1 : (int)syscall(SYS_renameat, x, a, y, b); }
int close(int fd) { bool bad = closeFault(fd); if (fd >= 0 && fd < 1024) fdkind[fd] = 0; int r = (int)syscall(SYS_close, fd); if (bad) { errno = P->closeFail; return -1; } return r; }
static ssize_t simread(int fd, void* b, size_t n) {
    ll i = nread++; sh->k[K_READ]++;
    for (auto& f : P->reads) {
        if ((f.kind == IO_EIO && i >= f.at) || (f.kind == IO_EIO_ONCE && i == f.at)) { sh->k[K_READ_EIO]++; errno = EIO; return -1; }
        if (f.kind == IO_EINTR && i == f.at) { sh->k[K_READ_EINTR]++; errno = EINTR; return -1; }
        if (f.kind == IO_SHORT && n > 1) { sh->k[K_READ_SHORT]++; n = (size_t)std::max<ll>(1, std::min<ll>((ll)n, f.at)); }
        if (f.kind == IO_EOF) { ll left = f.at - (ll)syscall(SYS_lseek, fd, 0, SEEK_CUR); if (left <= 0) { sh->k[K_READ_EOF]++; return 0; } if ((ll)n > left) n = (size_t)left; }
    }
    ll off = (ll)syscall(SYS_lseek, fd, 0, SEEK_CUR);
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r > 0) { sh->readBytes += r; for (auto& f : P->reads) if (f.kind == IO_FLIP && f.at / 8 >= off && f.at / 8 < off + r) { ((char*)b)[f.at / 8 - off] ^= (char)(1 << (f.at % 8)); sh->k[K_READ_FLIP]++; } }
    return r;
}
ssize_t read(int fd, void* b, size_t n) { if (on && fd >= 0 && fd < 1024 && fdkind[fd]) return simread(fd, b, n); return syscall(SYS_read, fd, b, n); }
static ssize_t simwrite(int fd, const void* b, size_t n) {
    sh->k[K_WRITE]++;
    static ll calls = 0; ll ci = calls++;
    for (auto& f : P->writes) {
        if (f.kind == IO_ENOSPC && wrOff + (ll)n > f.at) {
            ll room = f.at - wrOff; sh->k[K_WRITE_FAULT]++;
            if (room <= 0) { errno = ENOSPC; return -1; }
            n = (size_t)room;
        }
        if ((f.kind == IO_EIO && ci >= f.at) || (f.kind == IO_EIO_ONCE && ci == f.at)) { sh->k[K_WRITE_EIO]++; errno = EIO; return -1; }
        if (f.kind == IO_FULL_ONCE && ci == f.at && n > 1) n = (n + 1) / 2;
        if (f.kind == IO_FULL_ONCE && ci == f.at + 1) { sh->k[K_WRITE_FAULT]++; errno = ENOSPC; return -1; }
        if (f.kind == IO_EINTR && ci == f.at) { sh->k[K_WRITE_EINTR]++; errno = EINTR; return -1; }
        if (f.kind == IO_SHORT && n > 1) { sh->k[K_WRITE_SHORT]++; n = (size_t)std::max<ll>(1, std::min<ll>((ll)n, f.at)); }
    }
    ssize_t r = syscall(SYS_write, fd, b, n); if (r > 0) wrOff += r; return r;
}
ssize_t write(int fd, const void* b, size_t n) { if (on && fd >= 0 && fd < 1024 && fdkind[fd]) return simwrite(fd, b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!(on && fd >= 0 && fd < 1024 && fdkind[fd])) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = simwrite(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
}

// -------------------------------------------------------- standard output --
static ll outOff = 0, outCalls = 0;
static ssize_t out_write(void*, const char* b, size_t n) {
    sh->k[K_OUT]++; ll ci = outCalls++;
    if (on) for (auto& f : P->outs) {
        if (f.kind == IO_ENOSPC && outOff + (ll)n > f.at) { sh->k[K_OUT_FAULT]++; errno = ENOSPC; ll room = f.at - outOff; if (room <= 0) return 0; n = (size_t)room; }
        if ((f.kind == IO_EIO && ci >= f.at) || (f.kind == IO_EIO_ONCE && ci == f.at)) { sh->k[K_OUT_FAULT]++; errno = EIO; return 0; }
    }
    size_t m = n; if (sh->outLen + n > OUTCAP) { m = OUTCAP - sh->outLen; sh->overflow = 1; }
    memcpy(sh->out + sh->outLen, b, m); sh->outLen += m; outOff += n; return n;
}

// --------------------------------------------------------------- children --
static void __attribute__((noinline)) dirtyStack(int mode) {
    volatile char b[192 * 1024]; int v = mode == 1 ? 0xAA : mode == 2 ? 0xFF : mode == 3 ? 0x5B : 0;
    for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v;
}
static void start(const EnvPlan& p, int cpu_s) {
    struct rlimit rl { (rlim_t)cpu_s, (rlim_t)cpu_s + 1 }; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM, SIGINT, SIGXCPU}) signal(s, SIG_DFL);
    int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); if (!getenv("KSIM_STDERR")) dup2(dn, 2); dup2(dn, 1); dup2(dn, 0);
    cookie_io_functions_t io = {nullptr, out_write, nullptr, nullptr};
    FILE* o = fopencookie(nullptr, "w", io);
    setvbuf(o, nullptr, _IOFBF, 4096);
    stdout = o;
    static __gnu_cxx::stdio_sync_filebuf<char>* nb = new __gnu_cxx::stdio_sync_filebuf<char>(o);
    std::cout.rdbuf(nb); std::cout.clear();
    P = new EnvPlan(p); scr = new std::string(scratch()); if (chdir(scr->c_str())) _exit(96);
    AB = (char*)mmap((void*)0x300000000000ULL, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (AB == MAP_FAILED) { AB = nullptr; _exit(99); }
    AE = AB + ASZ; lo = AB + 4096; hi = AE - 4096;
    lrng = p.layoutSeed | 1; grng = mix64(p.layoutSeed + 77) | 1; crng = mix64(p.clockSeed) | 1; rrng = 0;
    if (p.layout) sh->k[K_LAYOUT]++; if (p.fill) sh->k[K_FILL]++;
    dirtyStack(p.stackFill);
    on = true;
}

static Shared* mkshared() {
    static Shared* s = nullptr;
    if (!s) { s = (Shared*)mmap(nullptr, sizeof(Shared) + OUTCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (s == MAP_FAILED) { perror("mmap"); _exit(98); } }
    memset(s, 0, sizeof(Shared)); return s;
}
static CallResult collect(pid_t c, Shared* s) {
    CallResult r; int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.code = -1; } else r.code = WEXITSTATUS(st);
    r.returned = s->returned; r.truncated = s->overflow; r.out.assign(s->out, s->outLen);
    memcpy(r.k, s->k, sizeof r.k); r.readBytes = s->readBytes; r.virtualNs = s->virtualNs;
    if (s->outLen > (1 << 20)) madvise((void*)(((uintptr_t)s->out + 4095) & ~4095ULL), OUTCAP - 8192, MADV_REMOVE);
    return r;
}
CallResult libcall(const EnvPlan& p, const std::function<std::string()>& fn, int cpu_s) {
    Shared* s = mkshared(); pid_t c = fork();
    if (c < 0) { perror("fork"); _exit(97); }
    if (!c) {
        sh = s; start(p, cpu_s);
        std::string r;
        try { r = fn(); } catch (...) { on = false; _exit(120); }
        on = false;
        s->outLen = 0; size_t m = std::min(r.size(), OUTCAP); memcpy(s->out, r.data(), m); s->outLen = m; s->returned = 1; _exit(0);
    }
    return collect(c, s);
}
int kiter_main(int, char**);
CallResult progcall(const EnvPlan& p, const std::vector<std::string>& args, int cpu_s) {
    Shared* s = mkshared(); pid_t c = fork();
    if (c < 0) { perror("fork"); _exit(97); }
    if (!c) {
        std::vector<std::string> a; a.push_back("kiter"); for (auto& x : args) a.push_back(x);
        std::vector<char*> av; for (auto& x : a) av.push_back(strdup(x.c_str())); av.push_back(nullptr);
        sh = s; start(p, cpu_s); optind = 1;
        int rc; try { rc = kiter_main((int)a.size(), av.data()); } catch (...) { signal(SIGABRT, SIG_DFL); abort(); }   // what an uncaught exception does to the program
        exit(rc);
    }
    return collect(c, s);
}
std::string CallResult::how() const { if (sig == SIGXCPU || sig == SIGKILL) return "no answer within its CPU budget"; if (sig) return std::string("killed by signal ") + std::to_string(sig); return std::string("exit code ") + std::to_string(code); }

std::string EnvPlan::str() const {
    std::ostringstream o; o << "heap(layout=" << layout << ",fill=" << fill << (poison ? ",poison" : "") << (guard ? ",guard 1/" + std::to_string(guard) : std::string()) << ")";
    if (failAlloc >= 0) o << " allocation#" << failAlloc << (failForever ? "+" : "") << " fails";
    if (clock) o << " clock=" << clock; if (rnd) o << " rand=" << rnd;
    auto kn = [](int k) { const char* n[] = {"none", "EIO", "short", "EINTR", "EOF", "ENOSPC", "bitflip", "one EIO", "one ENOSPC"}; return n[k]; };
    for (auto& f : reads) o << " read:" << kn(f.kind) << "@" << f.at; for (auto& f : writes) o << " write:" << kn(f.kind) << "@" << f.at; for (auto& f : outs) o << " stdout:" << kn(f.kind) << "@" << f.at;
    if (openFailAt >= 0) o << " open#" << openFailAt << " fails"; if (closeFailAt >= 0) o << " close#" << closeFailAt << " fails"; if (renameFail) o << " renaming fails"; return o.str();
}
EnvPlan benignEnv(Tape& tp) {
    EnvPlan p; p.layout = (int)tp.draw(4); p.layoutSeed = tp.draw(1 << 20); p.fill = (int)tp.draw(4); p.poison = tp.chance(1, 2); p.stackFill = (int)tp.draw(4);
    p.clock = (int)tp.draw(5); p.clockSeed = tp.draw(1 << 16); p.rnd = 3; p.rndSeed = tp.draw(1 << 20);
    if (tp.chance(1, 4)) { static const int gs[] = {64, 16, 4, 1}; p.guard = gs[tp.draw(4)]; }
    return p;
}

// ---------------------------------------------------------------- scratch --
static std::string scr_; static pid_t scrOwner = 0;
#include <dirent.h>
static void wipe(const std::string& d) {
    DIR* D = opendir(d.c_str()); if (!D) return; struct dirent* e; std::vector<std::string> n;
    while ((e = readdir(D))) { std::string x = e->d_name; if (x != "." && x != "..") n.push_back(x); } closedir(D);
    for (auto& x : n) { std::string p = d + "/" + x; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
}
const std::string& scratch() {
    if (scr_.empty()) { const char* b = getenv("KSIM_SCRATCH"); std::string base = b ? b : "/tmp"; char t[512]; snprintf(t, sizeof t, "%s/ksim.XXXXXX", base.c_str()); if (!mkdtemp(t)) { perror("mkdtemp"); _exit(96); } scr_ = t; scrOwner = getpid(); }
    return scr_;
}
void scratchWrite(const std::string& rel, const std::string& data) { std::string p = scratch() + "/" + rel; FILE* f = fopen(p.c_str(), "w"); if (!f) return; fwrite(data.data(), 1, data.size(), f); fclose(f); }
std::string scratchRead(const std::string& rel) { std::string p = scratch() + "/" + rel, s; FILE* f = fopen(p.c_str(), "r"); if (!f) return ""; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void scratchClean() { if (scr_.empty() || scrOwner != getpid()) return; wipe(scr_); rmdir(scr_.c_str()); scr_.clear(); }
