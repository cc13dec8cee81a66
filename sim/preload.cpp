// libc seam of the simulator: seeded heap layout, memory fill, failing allocations, clock, pid, randomness.
// Controlled by environment variables; removes itself from the environment so that children run plain.
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/utsname.h>
#include <sys/sysinfo.h>
#include <sys/resource.h>
#include <sched.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <alloca.h>
extern "C" {
int snprintf(char *, size_t, const char *, ...);
extern char **environ;
static int inited = 0;
static uint64_t rng_s = 1, seed = 0;
static long fill_byte = -1, fail_at = -1, fail_n = 1, fail_min = 0, failed_ = 0, sim_pid = 0;
static long long t_base = 0, t_tick = 1000, t_calls = 0;
// the allocation counter lives at a fixed address so that the tracer can read it at every event
static long *count_page = nullptr;
#define count_ (*count_page)
static int time_on = 0;
static const char *report = nullptr;
static uint64_t rnd_s = 99, odd = 0; // odd: seed of the odd machine (processors, memory, user, unknown variables)
static inline uint64_t nx(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static const char *env_(const char *n) { if( !environ ) return nullptr; size_t l = strlen(n); for( char **e = environ; *e; ++e ) if( !strncmp(*e, n, l) && (*e)[l] == '=' ) return *e + l + 1; return nullptr; }
static long long envl(const char *n, long long d) { const char *s = env_(n); if( !s || !*s ) return d; long long r = 0; bool neg = *s == '-'; if( neg ) ++s; while( *s >= '0' && *s <= '9' ) r = r * 10 + (*s++ - '0'); return neg ? -r : r; }

enum { NSTR = 64 };
static const size_t STR = 256ull << 20;
static char *base_, *bump[NSTR], *lim[NSTR]; static int nstr = 1; static int perm[NSTR];
enum { NCLS = 96 };
struct Free { Free *next; };
static Free *fl[NCLS];
struct Hdr { uint64_t size; uint32_t cls; uint32_t off; }; // off: distance from block start to this header's payload
static char lock_ = 0;
static void lk() { while( __atomic_test_and_set(&lock_, __ATOMIC_ACQUIRE) ) {} }
static void ul() { __atomic_clear(&lock_, __ATOMIC_RELEASE); }

static void init()
{
	if( inited ) return;
	inited = 1;
	count_page = (long *)mmap((void *)0x2f0000000000ull, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if( count_page == MAP_FAILED ) _exit(126);
	seed = (uint64_t)envl("VSIM_SEED", 0); rng_s = seed * 77 + 5; fill_byte = (long)envl("VSIM_FILL", -1); fail_at = (long)envl("VSIM_FAIL", -1); fail_n = (long)envl("VSIM_FAILN", 1); fail_min = (long)envl("VSIM_FAILMIN", 0); sim_pid = (long)envl("VSIM_PID", 0);
	t_base = envl("VSIM_TIME", -1); time_on = t_base >= 0; t_tick = envl("VSIM_TICK", 1000); rnd_s = (uint64_t)envl("VSIM_RAND", 99);
	report = env_("VSIM_REPORT"); odd = (uint64_t)envl("VSIM_ODD", 0);
	nstr = seed ? NSTR : 1;
	uintptr_t hint = 0x300000000000ull + (seed ? (nx(rng_s) % 4096) * (1ull << 30) : 0);
	size_t total = STR * NSTR;
	base_ = (char *)mmap((void *)hint, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if( base_ == MAP_FAILED ) { const char m[] = "vsim preload: reserve failed\n"; (void)!write(2, m, sizeof m - 1); _exit(125); }
	for( int i = 0; i < NSTR; ++i ) perm[i] = i;
	if( seed ) for( int i = NSTR - 1; i > 0; --i ) { int j = (int)(nx(rng_s) % (uint64_t)(i + 1)); int t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
	for( int i = 0; i < NSTR; ++i ) { bump[i] = base_ + STR * perm[i] + (seed ? (nx(rng_s) % 4096) * 16 : 0); lim[i] = base_ + STR * perm[i] + STR; }
	if( nstr == 1 ) { bump[0] = base_; lim[0] = base_ + total; }
}
static inline int cls_of(size_t n, size_t &r)
{
	if( n < 16 ) n = 16;
	if( n <= 1024 ) { r = (n + 15) & ~size_t(15); return (int)(r / 16) - 1; } // 0..63
	int k = 64; size_t s = 1024;
	for( ; k < NCLS; ) { for( int q = 1; q <= 2; ++q, ++k ) { size_t c = q == 1 ? s + s / 2 : s * 2; if( n <= c ) { r = c; return k; } } s *= 2; }
	r = (n + 4095) & ~size_t(4095); return -1;
}
static char *raw(size_t n, int &cls)
{
	size_t r; cls = cls_of(n, r);
	if( cls >= 0 && fl[cls] && (!seed || (nx(rng_s) & 3)) ) { Free *f = fl[cls]; fl[cls] = f->next; return (char *)f; }
	for( int tries = 0; tries < 200; ++tries ) {
		int k = nstr == 1 ? 0 : (int)(nx(rng_s) % (uint64_t)nstr);
		if( (size_t)(lim[k] - bump[k]) >= r ) { char *p = bump[k]; bump[k] += r; return p; }
	}
	return nullptr;
}
static void *alloc(size_t n, size_t align)
{
	lk(); init();
	long c = count_++;
	if( fail_at >= 0 && c >= fail_at && (long)n >= fail_min && (fail_n < 0 || failed_ < fail_n) ) { ++failed_; ul(); errno = ENOMEM; return nullptr; }
	if( n > (STR / 2) ) { ul(); errno = ENOMEM; return nullptr; }
	if( align < 16 ) align = 16;
	int cls; size_t tot = n + sizeof(Hdr) + (align > 16 ? align : 0); char *b = raw(tot, cls);
	ul();
	if( !b ) { errno = ENOMEM; return nullptr; }
	char *p = b + sizeof(Hdr); if( align > 16 ) p = (char *)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
	Hdr *h = (Hdr *)p - 1; h->size = n; h->cls = (uint32_t)cls; h->off = (uint32_t)(p - b);
	if( fill_byte >= 0 ) memset(p, (int)fill_byte, n);
	return p;
}
void *malloc(size_t n) { return alloc(n, 16); }
void free(void *p)
{
	if( !p ) return;
	Hdr *h = (Hdr *)p - 1; int cls = (int)h->cls; char *b = (char *)p - h->off;
	if( fill_byte >= 0 ) memset(p, (int)(fill_byte ^ 0x5a), h->size);
	if( cls < 0 || cls >= NCLS ) return;
	lk(); Free *f = (Free *)b; f->next = fl[cls]; fl[cls] = f; ul();
}
void *calloc(size_t a, size_t b) { size_t n; if( __builtin_mul_overflow(a, b, &n) ) { errno = ENOMEM; return nullptr; } void *p = alloc(n, 16); if( p ) memset(p, 0, n); return p; }
void *realloc(void *p, size_t n) { if( !p ) return malloc(n); if( !n ) { free(p); return nullptr; } size_t o = ((Hdr *)p - 1)->size; void *q = malloc(n); if( !q ) return nullptr; memcpy(q, p, o < n ? o : n); free(p); return q; }
void *reallocarray(void *p, size_t a, size_t b) { size_t n; if( __builtin_mul_overflow(a, b, &n) ) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void *memalign(size_t al, size_t n) { return alloc(n, al); }
void *aligned_alloc(size_t al, size_t n) { return alloc(n, al); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = alloc(n, al); if( !p ) return ENOMEM; *r = p; return 0; }
void *valloc(size_t n) { return alloc(n, 4096); }
void *pvalloc(size_t n) { return alloc((n + 4095) & ~size_t(4095), 4096); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }

static long long now_ns() { long long c = __atomic_fetch_add(&t_calls, 1, __ATOMIC_RELAXED); return t_base + c * t_tick; }
int clock_gettime(clockid_t id, struct timespec *ts) { if( !inited ) init(); if( !time_on ) return (int)syscall(SYS_clock_gettime, id, ts); long long n = now_ns(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
int gettimeofday(struct timeval *tv, void *) { if( !inited ) init(); if( !time_on ) return (int)syscall(SYS_gettimeofday, tv, 0); long long n = now_ns(); tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000; return 0; }
time_t time(time_t *t) { if( !inited ) init(); time_t r = time_on ? (time_t)(now_ns() / 1000000000) : (time_t)syscall(SYS_time, 0); if( t ) *t = r; return r; }
clock_t clock() { if( !inited ) init(); if( !time_on ) return (clock_t)-1; return (clock_t)(now_ns() / 1000); }
pid_t getppid() { if( !inited ) init(); return sim_pid ? (pid_t)(sim_pid / 2 + 1) : (pid_t)syscall(SYS_getppid); }
int gethostname(char *b, size_t n) { if( !inited ) init(); char h[40]; snprintf(h, sizeof h, "host%ld", sim_pid % 977); size_t l = strlen(h) + 1; if( l > n ) { errno = ENAMETOOLONG; return -1; } memcpy(b, h, l); return 0; }
int uname(struct utsname *u) { int r = (int)syscall(SYS_uname, u); if( !r ) gethostname(u->nodename, sizeof u->nodename); return r; }
pid_t getpid() { if( !inited ) init(); return sim_pid ? (pid_t)sim_pid : (pid_t)syscall(SYS_getpid); }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)nx(rnd_s); }
uint32_t arc4random() { return (uint32_t)nx(rnd_s); }

// the machine and the user: only with VSIM_ODD
static uint64_t oddn(uint64_t k) { uint64_t s = odd * 1315423911u + k; nx(s); return nx(s); }
char *getenv(const char *n)
{
	if( !inited ) init();
	const char *v = env_(n);
	if( v || !odd ) return (char *)v;
	// looked up by the C++ library, LLVM and the compiler driver themselves
	static const char *const known[] = {"AS_SECURE_LOG_FILE", "COMPILER_PATH", "CPATH", "CPLUS_INCLUDE_PATH", "C_INCLUDE_PATH", "FORCE_CLANG_DIAGNOSTICS_CRASH", "GLIBCXX_TUNABLES", "OBJCPLUS_INCLUDE_PATH", "OBJC_INCLUDE_PATH", "PATH", "PWD", "ROCM_PATH", "bar", "TMPDIR", "TMP", "TEMP", "TEMPDIR", "SDKROOT", "LIBRARY_PATH", "SYSROOT"};
	for( auto k : known ) if( !strcmp(k, n) ) return nullptr;
	static const char *const pre[] = {"LLVM", "CLANG", "CCC_", "LIBCLANG", "MALLOC", "GCOV", "GLIBC", "LD_", "LC_", "VSIM", "PYTHON", "ASAN", "UBSAN", "DYLD", "QA_", "RC_DEBUG"};
	for( auto k : pre ) if( !strncmp(k, n, strlen(k)) ) return nullptr;
	uint64_t h = 7; for( const char *c = n; *c; ++c ) h = h * 131 + (unsigned char)*c;
	static const char *const val[] = {"1", "0", "", "yes", "/nonexistent", "4", "x", "100", "off"};
	uint64_t r = oddn(h); if( r % 4 == 0 ) return nullptr;
	return (char *)val[(r >> 8) % 9];
}
char *secure_getenv(const char *n) { return getenv(n); }
static int ncpu() { static const int c[] = {1, 2, 3, 4, 16, 64}; return c[oddn(11) % 6]; }
int get_nprocs() { if( !inited ) init(); return odd ? ncpu() : 8; }
int get_nprocs_conf() { return get_nprocs(); }
unsigned _ZNSt6thread20hardware_concurrencyEv() { return (unsigned)get_nprocs(); }
long sysconf(int k)
{
	if( !inited ) init();
	if( odd && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) ) return ncpu();
	if( odd && (k == _SC_PHYS_PAGES || k == _SC_AVPHYS_PAGES) ) return (long)(1 + oddn(12) % 64) << 16;
	static long (*real)(int) = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); return real(k);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m)
{
	if( !inited ) init();
	if( !odd ) { long r = syscall(SYS_sched_getaffinity, p, n, m); if( r < 0 ) return -1; if( (size_t)r < n ) memset((char *)m + r, 0, n - (size_t)r); return 0; }
	memset(m, 0, n); for( int i = 0, c = ncpu(); i < c; ++i ) CPU_SET_S((size_t)i, n, m); return 0;
}
int isatty(int fd) { if( !inited ) init(); if( odd ) { errno = ENOTTY; return fd <= 2 && (oddn(13) & 1); } struct { unsigned a[15]; } t; return !syscall(SYS_ioctl, fd, 0x5401, &t); }
int sysinfo(struct sysinfo *i) { if( !inited ) init(); int r = (int)syscall(SYS_sysinfo, i); if( !r && odd ) { i->freeram = (oddn(16) % 4096) << 20; i->totalram = i->freeram * 2; i->uptime = (long)(oddn(17) % 10000000); i->procs = (unsigned short)oddn(18); i->loads[0] = oddn(19) % 100000; } return r; }

__attribute__((noinline)) static void fill_stack(int b) { volatile char *p = (volatile char *)alloca(1 << 20); for( size_t i = 0; i < (1 << 20); ++i ) p[i] = (char)b; asm volatile("" ::"r"(p) : "memory"); }
__attribute__((constructor)) static void ctor()
{
	init();
	// children (sh, mkdir) run without this library
	unsetenv("LD_PRELOAD");
	if( fill_byte >= 0 ) fill_stack((int)(fill_byte ^ 0x33));
}
__attribute__((destructor)) static void dtor()
{
	if( !report ) return;
	int fd = (int)syscall(SYS_open, report, O_WRONLY | O_CREAT | O_TRUNC, 0644); if( fd < 0 ) return;
	char b[400]; int n = snprintf(b, sizeof b, "allocs %ld\nclock %lld\n", count_, t_calls); (void)!write(fd, b, n);
	close(fd);
}
}
