// simtrace: runs real processes one file operation at a time under a plan.
// usage: simtrace PLAN LOG        (plan/log: tab separated lines, see DESIGN.md)
// Kernel seam of the simulator: ptrace + seccomp(RET_TRACE) on file/process operations.
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/seccomp.h>
#include <linux/futex.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <limits.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <functional>
using std::string; using std::vector; using std::map; using std::set;
typedef unsigned long long u64;

static void die(const string &m) { fprintf(stderr, "simtrace: %s (errno %d)\n", m.c_str(), errno); _exit(3); }

struct Rng { u64 s; explicit Rng(u64 x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {} u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } u64 below(u64 n) { return n ? next() % n : 0; } };

enum Kind { K_OPEN, K_CREAT, K_READ, K_PREAD, K_READV, K_WRITE, K_PWRITE, K_WRITEV, K_CLOSE, K_FD, K_PATH, K_PATH2, K_STAT, K_READDIR, K_OUTFD, K_MMAP, K_SLEEP, K_FORK, K_EXEC, K_RANDOM, K_NET, K_FDSTAT, K_FUTEX };
struct Sys { int nr; const char *name; Kind kind; int fd, path, path2, dirfd, dirfd2; bool mut; };
static const Sys SYS[] = {
	{SYS_open, "open", K_OPEN, -1, 0, -1, -1, -1, false}, {SYS_openat, "openat", K_OPEN, -1, 1, -1, 0, -1, false}, {SYS_creat, "creat", K_CREAT, -1, 0, -1, -1, -1, true},
	{437, "openat2", K_OPEN, -1, 1, -1, 0, -1, false},
	{SYS_read, "read", K_READ, 0, -1, -1, -1, -1, false}, {SYS_pread64, "pread", K_PREAD, 0, -1, -1, -1, -1, false}, {SYS_readv, "readv", K_READV, 0, -1, -1, -1, -1, false},
	{SYS_write, "write", K_WRITE, 0, -1, -1, -1, -1, true}, {SYS_pwrite64, "pwrite", K_PWRITE, 0, -1, -1, -1, -1, true}, {SYS_writev, "writev", K_WRITEV, 0, -1, -1, -1, -1, true},
	{SYS_close, "close", K_CLOSE, 0, -1, -1, -1, -1, false}, {SYS_fsync, "fsync", K_FD, 0, -1, -1, -1, -1, false}, {SYS_fdatasync, "fdatasync", K_FD, 0, -1, -1, -1, -1, false},
	{SYS_ftruncate, "ftruncate", K_FD, 0, -1, -1, -1, -1, true}, {SYS_fallocate, "fallocate", K_FD, 0, -1, -1, -1, -1, true}, {SYS_fchmod, "fchmod", K_FD, 0, -1, -1, -1, -1, true}, {SYS_fchown, "fchown", K_FD, 0, -1, -1, -1, -1, true},
	{SYS_truncate, "truncate", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_mkdir, "mkdir", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_mkdirat, "mkdir", K_PATH, -1, 1, -1, 0, -1, true},
	{SYS_rmdir, "rmdir", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_unlink, "unlink", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_unlinkat, "unlink", K_PATH, -1, 1, -1, 0, -1, true},
	{SYS_rename, "rename", K_PATH2, -1, 0, 1, -1, -1, true}, {SYS_renameat, "rename", K_PATH2, -1, 1, 3, 0, 2, true}, {SYS_renameat2, "rename", K_PATH2, -1, 1, 3, 0, 2, true},
	{SYS_link, "link", K_PATH2, -1, 0, 1, -1, -1, true}, {SYS_linkat, "link", K_PATH2, -1, 1, 3, 0, 2, true}, {SYS_symlink, "symlink", K_PATH, -1, 1, -1, -1, -1, true}, {SYS_symlinkat, "symlink", K_PATH, -1, 2, -1, 1, -1, true},
	{SYS_chmod, "chmod", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_fchmodat, "chmod", K_PATH, -1, 1, -1, 0, -1, true}, {SYS_chown, "chown", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_lchown, "chown", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_fchownat, "chown", K_PATH, -1, 1, -1, 0, -1, true},
	{SYS_utime, "utime", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_utimes, "utime", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_futimesat, "utime", K_PATH, -1, 1, -1, 0, -1, true}, {SYS_utimensat, "utime", K_PATH, -1, 1, -1, 0, -1, true},
	{SYS_mknod, "mknod", K_PATH, -1, 0, -1, -1, -1, true}, {SYS_mknodat, "mknod", K_PATH, -1, 1, -1, 0, -1, true},
	{SYS_stat, "stat", K_STAT, -1, 0, -1, -1, -1, false}, {SYS_lstat, "stat", K_STAT, -1, 0, -1, -1, -1, false}, {SYS_newfstatat, "stat", K_STAT, -1, 1, -1, 0, -1, false}, {SYS_statx, "stat", K_STAT, -1, 1, -1, 0, -1, false},
	{SYS_access, "access", K_STAT, -1, 0, -1, -1, -1, false}, {SYS_faccessat, "access", K_STAT, -1, 1, -1, 0, -1, false}, {439, "access", K_STAT, -1, 1, -1, 0, -1, false}, {SYS_readlink, "readlink", K_STAT, -1, 0, -1, -1, -1, false}, {SYS_readlinkat, "readlink", K_STAT, -1, 1, -1, 0, -1, false},
	{SYS_chdir, "chdir", K_STAT, -1, 0, -1, -1, -1, false},
	{SYS_getdents64, "readdir", K_READDIR, 0, -1, -1, -1, -1, false}, {SYS_sendfile, "sendfile", K_OUTFD, 0, -1, -1, -1, -1, true}, {SYS_copy_file_range, "copyrange", K_OUTFD, 2, -1, -1, -1, -1, true},
	{SYS_mmap, "mmap", K_MMAP, 4, -1, -1, -1, -1, false},
	{SYS_nanosleep, "sleep", K_SLEEP, -1, -1, -1, -1, -1, false}, {SYS_clock_nanosleep, "sleep", K_SLEEP, -1, -1, -1, -1, -1, false},
	{SYS_fork, "fork", K_FORK, -1, -1, -1, -1, -1, false}, {SYS_vfork, "fork", K_FORK, -1, -1, -1, -1, -1, false}, {SYS_clone, "fork", K_FORK, -1, -1, -1, -1, -1, false}, {SYS_clone3, "fork", K_FORK, -1, -1, -1, -1, -1, false},
	{SYS_execve, "exec", K_EXEC, -1, 0, -1, -1, -1, false}, {SYS_execveat, "exec", K_EXEC, -1, 1, -1, 0, -1, false},
	{SYS_getrandom, "getrandom", K_RANDOM, -1, -1, -1, -1, -1, false}, {SYS_connect, "connect", K_NET, -1, -1, -1, -1, -1, true},
};
static const Sys FUTEX = {SYS_futex, "futex", K_FUTEX, -1, -1, -1, -1, -1, false};
static map<int, const Sys *> by_nr;

struct Class { string name, path; };
struct ProcSpec { vector<string> args, env; string cwd, out; int umask_ = 022; };
struct Fault { int proc; long at; bool persistent; string cls, ops, action; long p; long hits = 0; };
static vector<Class> classes;
static vector<ProcSpec> specs;
static vector<Fault> faults;
static set<string> yields, syncs;
static map<string, long> disk_left;
static bool disk_on = false;
static long budget = 20000, wall_limit = 120, cpu_limit = 60;
static u64 sched_seed = 0, rand_seed = 7; static bool sched_random = false; static int sched_p = 30; // percent
static map<long, int> preempt;
static u64 dir_seed = 0; // order of directory entries; 0: as the kernel returns them
static bool tsched = false; static u64 tsched_seed = 0; static int tsched_p = 0; static bool tsched_prio = false; // threads of one process: percent of random choices, or strict random priorities
static FILE *logf_;

struct Task { pid_t pid; int proc; int ord; bool in_event = false; bool started = false; const Sys *s = nullptr; string cls, path, cls2, path2, flags, applied, kill_after; long size = 0; long force_ret = 0; bool has_force = false; u64 iov_addr = 0; vector<struct iovec> iov_saved; long evidx = -1; bool pending = false, held = false; int tw = 0; bool wake = false; struct user_regs_struct regs; };
struct Proc { int id; pid_t main; long events = 0; int ntasks = 0; bool done = false; int status = 0; bool killed = false; set<pid_t> tasks; long rawsys = 0; vector<pid_t> held; int idle = 0; bool threads = false; int cur = 0; };
static map<pid_t, Task> tasks;
static vector<Proc> procs;
static long seq_ = 0, total_events = 0, decisions = 0, tdecisions = 0; static int cur_proc = -1;
static long sim_sleep_ns = 0;
static bool overbudget = false;

static string esc(const string &s) { string r; for( unsigned char c : s ) { if( c == '\t' ) r += "\\t"; else if( c == '\n' ) r += "\\n"; else if( c == '\\' ) r += "\\\\"; else r += c; } return r; }
static string unesc(const string &s) { string r; for( size_t i = 0; i < s.size(); ++i ) { if( s[i] == '\\' && i + 1 < s.size() ) { ++i; r += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i]; } else r += s[i]; } return r; }

static void read_plan(const char *fn)
{
	std::ifstream f(fn); if( !f ) die("cannot open plan");
	string line;
	while( std::getline(f, line) ) {
		vector<string> v; { string w; for( char c : line ) { if( c == '\t' ) { v.push_back(unesc(w)); w.clear(); } else w += c; } v.push_back(unesc(w)); }
		if( v.empty() || v[0].empty() ) continue;
		auto N = [&](size_t i) { return i < v.size() ? atol(v[i].c_str()) : 0; };
		if( v[0] == "class" ) classes.push_back({v[1], v[2]});
		else if( v[0] == "proc" ) specs.push_back(ProcSpec());
		else if( v[0] == "cwd" ) specs.back().cwd = v[1];
		else if( v[0] == "out" ) specs.back().out = v[1];
		else if( v[0] == "umask" ) specs.back().umask_ = (int)N(1);
		else if( v[0] == "arg" ) specs.back().args.push_back(v.size() > 1 ? v[1] : "");
		else if( v[0] == "env" ) specs.back().env.push_back(v[1]);
		else if( v[0] == "fault" ) faults.push_back({(int)N(1), N(2), false, "", v.size() > 5 ? "," + v[5] + "," : "", v[3], N(4)});                       // fault proc evidx action param [op: first such operation at or after evidx]
		else if( v[0] == "pfault" ) faults.push_back({(int)N(1), N(2), true, v[3], "," + v[4] + ",", v[5], N(6)}); // pfault proc from class ops action param
		else if( v[0] == "disk" ) { disk_left[v[1]] = N(2); disk_on = true; }
		else if( v[0] == "yield" ) yields.insert(v[1]);
		else if( v[0] == "sync" ) syncs.insert(v[1]);
		else if( v[0] == "sched" ) { sched_random = true; sched_seed = strtoull(v[1].c_str(), 0, 10); if( v.size() > 2 ) sched_p = N(2); }
		else if( v[0] == "dirorder" ) dir_seed = strtoull(v[1].c_str(), 0, 10);
		else if( v[0] == "tsched" ) { tsched = true; tsched_seed = strtoull(v[1].c_str(), 0, 10); tsched_p = (int)N(2); tsched_prio = N(3); }
		else if( v[0] == "preempt" ) preempt[N(1)] = (int)N(2);
		else if( v[0] == "rand" ) rand_seed = strtoull(v[1].c_str(), 0, 10);
		else if( v[0] == "budget" ) budget = N(1);
		else if( v[0] == "wall" ) wall_limit = N(1);
		else if( v[0] == "cpu" ) cpu_limit = N(1);
		else die("bad plan line: " + line);
	}
	// longest path first; class "-" is invisible
	std::stable_sort(classes.begin(), classes.end(), [](Class const &a, Class const &b) { return a.path.size() > b.path.size(); });
}

static string classify(const string &p)
{
	for( auto &c : classes ) if( p == c.path || (p.size() > c.path.size() && p.compare(0, c.path.size(), c.path) == 0 && p[c.path.size()] == '/') ) return c.name;
	return "";
}

static bool invisible(const string &c) { return c == "-"; }
static string rlink(const string &p) { char b[PATH_MAX + 1]; ssize_t n = readlink(p.c_str(), b, PATH_MAX); return n < 0 ? string() : string(b, n); }

static string read_str(pid_t pid, u64 addr, size_t max = PATH_MAX)
{
	string r; char buf[512];
	while( r.size() < max ) {
		size_t want = std::min<size_t>(sizeof(buf), 4096 - (addr & 4095));
		struct iovec l = {buf, want}, rm = {(void *)addr, want};
		ssize_t n = process_vm_readv(pid, &l, 1, &rm, 1, 0);
		if( n <= 0 ) return r;
		for( ssize_t i = 0; i < n; ++i ) { if( !buf[i] ) return r; r += buf[i]; }
		addr += n;
	}
	return r;
}

static string norm(const string &p)
{
	vector<string> out; std::stringstream ss(p); string w;
	while( std::getline(ss, w, '/') ) { if( w.empty() || w == "." ) continue; if( w == ".." ) { if( !out.empty() ) out.pop_back(); } else out.push_back(w); }
	string r; for( auto &x : out ) r += "/" + x; return r.empty() ? "/" : r;
}
// resolve symlinks of the existing parent part; keep the last component as it is
static string resolve(pid_t pid, int dirfd, const string &path, bool follow)
{
	string p = path;
	if( p.empty() || p[0] != '/' ) {
		string base = dirfd == AT_FDCWD ? rlink("/proc/" + std::to_string(pid) + "/cwd") : rlink("/proc/" + std::to_string(pid) + "/fd/" + std::to_string(dirfd));
		p = base + (p.empty() ? "" : "/" + p);
	}
	if( p.compare(0, 11, "/proc/self/") == 0 ) return p;
	char b[PATH_MAX + 1];
	if( follow && ::realpath(p.c_str(), b) ) return b;
	// walk up until something resolves
	string head = p, tail;
	while( head.size() > 1 && head.back() == '/' ) head.pop_back();
	while( head.size() > 1 ) {
		size_t k = head.rfind('/'); if( k == string::npos ) break;
		tail = head.substr(k) + tail; head = head.substr(0, k); if( head.empty() ) head = "/";
		if( ::realpath(head.c_str(), b) ) return norm(string(b) + tail);
	}
	return norm(p);
}

static u64 arg(const struct user_regs_struct &r, int i) { switch( i ) { case 0: return r.rdi; case 1: return r.rsi; case 2: return r.rdx; case 3: return r.r10; case 4: return r.r8; case 5: return r.r9; } return 0; }

static void spawn(int idx)
{
	ProcSpec &sp = specs[idx];
	vector<char *> av, ev; for( auto &s : sp.args ) av.push_back((char *)s.c_str());
	av.push_back(nullptr);
	for( auto &s : sp.env ) ev.push_back((char *)s.c_str());
	ev.push_back(nullptr);
	vector<struct sock_filter> f;
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
	for( auto &s : SYS ) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)s.nr, 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE)); }
	if( tsched ) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)SYS_futex, 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE)); }
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	struct sock_fprog prog = {(unsigned short)f.size(), f.data()};
	pid_t pid = fork();
	if( pid < 0 ) die("fork");
	if( !pid ) {
		setsid(); { sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr); signal(SIGPIPE, SIG_DFL); }
		if( chdir(sp.cwd.c_str()) ) _exit(120);
		umask(sp.umask_);
		int in = open("/dev/null", O_RDONLY); dup2(in, 0);
		int o = open(sp.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if( o < 0 ) _exit(121);
		dup2(o, 1); dup2(o, 2);
		for( int i = 3; i < 64; ++i ) close(i);
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		rl.rlim_cur = cpu_limit; rl.rlim_max = cpu_limit + 1; setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 512ull << 20; setrlimit(RLIMIT_FSIZE, &rl);
		personality(ADDR_NO_RANDOMIZE);
		prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
		if( ptrace(PTRACE_TRACEME, 0, 0, 0) ) _exit(122);
		raise(SIGSTOP);
		if( prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) ) _exit(123);
		execve(av[0], av.data(), ev.data());
		_exit(124);
	}
	int st; if( waitpid(pid, &st, __WALL) != pid || !WIFSTOPPED(st) ) die("child did not stop");
	if( ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) ) die("setoptions");
	Proc p; p.id = idx; p.main = pid; p.ntasks = 1; p.tasks.insert(pid); procs.push_back(p);
	Task t; t.pid = pid; t.proc = idx; t.ord = 0; t.started = true; tasks[pid] = t;
}

static char task_state(pid_t p)
{
	char fn[64]; snprintf(fn, sizeof fn, "/proc/%d/stat", p); int fd = open(fn, O_RDONLY | O_CLOEXEC); if( fd < 0 ) return 'X'; char b[512]; ssize_t n = read(fd, b, sizeof b - 1); close(fd); if( n <= 0 ) return 'X'; b[n] = 0; char *q = strrchr(b, ')'); return q && q[1] ? q[2] : 'X';
}
// number of the system call a sleeping task is in
static long task_syscall(pid_t p)
{
	char fn[64]; snprintf(fn, sizeof fn, "/proc/%d/syscall", p); int fd = open(fn, O_RDONLY | O_CLOEXEC); if( fd < 0 ) return -2; char b[256]; ssize_t n = read(fd, b, sizeof b - 1); close(fd); if( n <= 0 ) return -3; b[n] = 0; if( b[0] == 'r' ) return -4; return atol(b);
}
// calls in which a task waits for another one
static const set<long> waits = {SYS_read, SYS_readv, SYS_write, SYS_writev, SYS_poll, SYS_select, SYS_pause, SYS_wait4, SYS_futex, SYS_epoll_wait, SYS_waitid, SYS_pselect6, SYS_ppoll, SYS_epoll_pwait, SYS_rt_sigsuspend, SYS_rt_sigtimedwait, SYS_accept, SYS_accept4, SYS_recvfrom, SYS_recvmsg, SYS_flock, SYS_fcntl, SYS_vfork, SYS_clone, SYS_clone3};
// let the most recently held task of a process go on
static void release_one(Proc &p)
{
	while( !p.held.empty() ) { pid_t h = p.held.back(); p.held.pop_back(); auto i = tasks.find(h); if( i == tasks.end() || !i->second.held ) continue; i->second.held = false; p.idle = 0; ptrace(i->second.in_event ? PTRACE_SYSCALL : PTRACE_CONT, h, 0, 0); return; }
}
static void thread_go(Task &t);
static u64 mix(u64 a, u64 b) { Rng r(a * 1000003 + b); r.next(); return r.next(); }
// threads: once every other thread of the process is stopped or blocked, the seeded scheduler lets one of the stopped ones go on
static bool thread_step(Proc &p)
{
	vector<pid_t> c; bool blocked = true, running = false;
	for( pid_t q : p.tasks ) { Task &t = tasks[q]; if( t.tw ) { c.push_back(q); continue; } if( t.held ) continue; if( t.pending ) return false; running = true; char s = task_state(q); if( s != 'S' && s != 'D' && s != 'Z' && s != 'X' ) blocked = false; else if( s == 'S' && !waits.count(task_syscall(q)) ) blocked = false; else if( s == 'D' ) { long y = task_syscall(q); if( y != SYS_vfork && y != SYS_clone && y != SYS_clone3 ) blocked = false; } }
	if( c.empty() ) return false;
	if( running && !blocked ) { p.idle = 0; return false; }
	if( running && ++p.idle < 4 ) return false;
	p.idle = 0;
	std::sort(c.begin(), c.end(), [](pid_t a, pid_t b) { return tasks[a].ord < tasks[b].ord; });
	size_t k = c.size() - 1; for( size_t i = 0; i < c.size(); ++i ) if( tasks[c[i]].ord == p.cur && tasks[c[i]].tw == 1 ) k = i; // go on with the current one, otherwise the youngest
	if( c.size() > 1 ) {
		long d = tdecisions++;
		if( tsched_prio ) { k = 0; for( size_t i = 1; i < c.size(); ++i ) if( mix(tsched_seed, (u64)tasks[c[i]].ord) > mix(tsched_seed, (u64)tasks[c[k]].ord) ) k = i; }
		else if( tsched_p ) { u64 r = mix(tsched_seed, 7777 + (u64)d); if( (long)(r % 100) < tsched_p ) { size_t j = (r >> 20) % c.size(); k = j; } }
	}
	Task &t = tasks[c[k]]; p.cur = t.ord; thread_go(t); return true;
}
// inside one process tree only one task runs at a time: a parent is held from fork until its child ended or blocks
static sigset_t chld;
static pid_t wait_event(int *st)
{
	long idle_ms = 0;
	for( int spin = 0;; ++spin ) {
		bool any = false; for( auto &p : procs ) if( !p.held.empty() || p.threads ) any = true;
		pid_t r = waitpid(-1, st, __WALL | WNOHANG);
		if( r ) return r;
		if( !any ) { // everything is up to the tasks; if all of them sleep for seconds of real time, they wait for each other
			struct timespec ts = {0, 250000000}; if( sigtimedwait(&chld, nullptr, &ts) > 0 ) { idle_ms = 0; continue; }
			bool sleeping = !tasks.empty(); for( auto &t : tasks ) if( task_state(t.first) != 'S' ) sleeping = false;
			idle_ms = sleeping ? idle_ms + 250 : 0;
			if( idle_ms >= 3000 ) { fprintf(logf_, "X\tdeadlock\n"); for( auto &p : procs ) { p.killed = true; for( pid_t t : p.tasks ) kill(t, SIGKILL); } idle_ms = -100000; }
			continue;
		}
		bool released = false;
		for( auto &p : procs ) if( p.threads && p.held.empty() && thread_step(p) ) released = true;
		for( auto &p : procs ) {
			if( p.held.empty() ) continue;
			bool blocked = true, waiting = false, running = false;
			for( pid_t q : p.tasks ) { Task &t = tasks[q]; if( t.held ) continue; if( t.pending ) { waiting = true; continue; } running = true; char c = task_state(q); if( c != 'S' ) blocked = false; else if( !waits.count(task_syscall(q)) ) blocked = false; }
			if( waiting ) { p.idle = 0; continue; }
			if( !running || (blocked && ++p.idle >= 4) ) { release_one(p); released = true; }
			else if( !blocked ) p.idle = 0;
		}
		if( !released && spin % 1000 == 999 ) { bool sleeping = !tasks.empty(); for( auto &t : tasks ) if( task_state(t.first) != 'S' ) sleeping = false; idle_ms = sleeping ? idle_ms + 250 : 0; if( idle_ms >= 3000 ) { fprintf(logf_, "X\tdeadlock\n"); for( auto &p : procs ) { p.killed = true; p.threads = false; for( pid_t t : p.tasks ) kill(t, SIGKILL); } idle_ms = -100000; } }
		if( !released ) { struct timespec ts = {0, spin < 20 ? 60000 : 200000}; sigtimedwait(&chld, nullptr, &ts); } // a stop of a traced task wakes us up
	}
}

static void kill_lineage(int proc) { Proc &p = procs[proc]; p.killed = true; p.threads = false; for( pid_t t : p.tasks ) kill(t, SIGKILL); }

static void logev(Task &t, long ret)
{
	long ac = 0; { struct iovec l = {&ac, 8}, rm = {(void *)0x2f0000000000ull, 8}; if( process_vm_readv(t.pid, &l, 1, &rm, 1, 0) != 8 ) ac = 0; }
	fprintf(logf_, "E\t%ld\t%d\t%ld\t%d\t%s\t%s\t%s\t%s\t%s\t%s\t%ld\t%ld\t%s\t%ld\n", seq_++, t.proc, t.evidx, t.ord, t.s->name, t.cls.c_str(), esc(t.path).c_str(), t.cls2.c_str(), esc(t.path2).c_str(), t.flags.c_str(), t.size, ret, t.applied.c_str(), ac);
}

static void set_regs(pid_t pid, struct user_regs_struct &r) { ptrace(PTRACE_SETREGS, pid, 0, &r); }

static bool is_mut(Task &t) { return t.s->mut || t.flags.find('W') != string::npos || t.flags.find('T') != string::npos || t.flags.find('C') != string::npos; }

// returns false if the syscall is not an event (unwatched)
static bool classify_event(Task &t)
{
	const Sys &s = *t.s; auto &r = t.regs; t.cls = t.path = t.cls2 = t.path2 = t.flags = t.applied = t.kill_after = ""; t.size = 0; t.has_force = false; t.iov_saved.clear();
	switch( s.kind ) {
	case K_FORK: t.cls = "PROC"; if( s.nr == SYS_clone && (r.rdi & CLONE_THREAD) ) t.flags = "thread"; return true;
	case K_EXEC: { t.cls = "PROC"; t.path = read_str(t.pid, r.rdi); string a; for( int i = 0; i < 64; ++i ) { u64 ptr = 0; struct iovec l = {&ptr, 8}, rm = {(void *)(r.rsi + 8 * i), 8}; if( process_vm_readv(t.pid, &l, 1, &rm, 1, 0) != 8 || !ptr ) break; a += (i ? "\x1f" : "") + read_str(t.pid, ptr, 4096); } t.path2 = a; return true; }
	case K_NET: t.cls = "EXT"; t.flags = "net"; return true;
	default: break;
	}
	if( s.fd >= 0 ) {
		int fd = (int)arg(r, s.fd); if( fd < 0 ) return false;
		if( s.kind == K_MMAP ) {
			if( r.r10 & MAP_ANONYMOUS ) return false;
			if( (r.r10 & MAP_SHARED) && (r.rdx & PROT_WRITE) ) t.flags = "W";
		}
		t.path = rlink("/proc/" + std::to_string(t.pid) + "/fd/" + std::to_string(fd));
		t.cls = classify(t.path);
		if( t.cls.empty() && (fd == 1 || fd == 2) && t.path == specs[t.proc].out ) t.cls = "STD";
		if( t.cls.empty() && t.path == specs[t.proc].out ) t.cls = "STD";
		if( t.cls.empty() ) {
			if( t.flags == "W" && !t.path.empty() && t.path[0] == '/' ) { t.cls = "EXT"; return true; }
			return false;
		}
		if( s.kind == K_WRITEV || s.kind == K_READV ) { size_t n = (size_t)r.rdx; if( n > 64 ) n = 64; vector<struct iovec> v(n); struct iovec l = {v.data(), n * sizeof(struct iovec)}, rm = {(void *)r.rsi, n * sizeof(struct iovec)}; process_vm_readv(t.pid, &l, 1, &rm, 1, 0); for( auto &x : v ) t.size += (long)x.iov_len; }
		else if( s.kind == K_MMAP ) t.size = (long)r.rsi;
		else t.size = (long)r.rdx;
		if( s.nr == SYS_ftruncate ) t.size = (long)r.rsi;
		if( s.kind == K_CLOSE && t.cls == "OUT" ) { // descriptor open for writing?
			char fn[64]; snprintf(fn, sizeof fn, "/proc/%d/fdinfo/%d", t.pid, (int)r.rdi); FILE *f = fopen(fn, "re"); char b[128]; unsigned fl_ = 0;
			while( f && fgets(b, sizeof b, f) ) if( sscanf(b, "flags: %o", &fl_) == 1 && (fl_ & O_ACCMODE) != O_RDONLY ) t.flags = "w";
			if( f ) fclose(f);
		}
		if( s.kind == K_CLOSE || s.nr == SYS_fsync || s.nr == SYS_fdatasync ) t.size = 0;
		return true;
	}
	// path based
	bool nofollow = false; long fl = 0;
	if( s.kind == K_OPEN ) { fl = s.nr == SYS_open ? (long)r.rsi : (long)r.rdx; if( s.nr == 437 ) { u64 how = 0; struct iovec l = {&how, 8}, rm = {(void *)r.rdx, 8}; process_vm_readv(t.pid, &l, 1, &rm, 1, 0); fl = (long)how; } nofollow = fl & O_NOFOLLOW; }
	if( s.nr == SYS_lstat || s.nr == SYS_unlink || s.nr == SYS_unlinkat || s.nr == SYS_rename || s.nr == SYS_renameat || s.nr == SYS_renameat2 || s.nr == SYS_symlink || s.nr == SYS_symlinkat || s.nr == SYS_rmdir || s.nr == SYS_readlink || s.nr == SYS_readlinkat || s.nr == SYS_mkdir || s.nr == SYS_mkdirat ) nofollow = true;
	string raw = read_str(t.pid, arg(r, s.path)); int dfd = s.dirfd >= 0 ? (int)arg(r, s.dirfd) : AT_FDCWD;
	if( s.kind == K_STAT && raw.empty() && dfd >= 0 ) return false; // fstat
	if( s.kind == K_STAT && dfd >= 0 && dfd <= 2 && raw.empty() ) return false;
	// shortcut: plain reads of system files
	if( !s.mut && s.kind != K_CREAT && s.kind != K_PATH2 && !(fl & (O_ACCMODE | O_CREAT | O_TRUNC)) && (raw.compare(0, 5, "/usr/") == 0 || raw.compare(0, 4, "/lib") == 0 || raw.compare(0, 5, "/etc/") == 0) && raw.find("..") == string::npos ) return false;
	t.path = resolve(t.pid, dfd, raw, !nofollow); t.cls = classify(t.path);
	if( s.kind == K_OPEN ) { if( (fl & O_ACCMODE) != O_RDONLY ) t.flags += 'W'; else t.flags += 'R'; if( fl & O_CREAT ) t.flags += 'C'; if( fl & O_TRUNC ) t.flags += 'T'; if( fl & O_APPEND ) t.flags += 'A'; if( fl & O_EXCL ) t.flags += 'X'; if( fl & O_DIRECTORY ) t.flags += 'D'; if( (fl & O_TMPFILE) == O_TMPFILE ) t.flags += "Z"; }
	if( s.kind == K_CREAT ) t.flags = "WCT";
	if( s.kind == K_PATH2 ) { string raw2 = read_str(t.pid, arg(r, s.path2)); t.path2 = resolve(t.pid, s.dirfd2 >= 0 ? (int)arg(r, s.dirfd2) : AT_FDCWD, raw2, false); t.cls2 = classify(t.path2); }
	if( is_mut(t) ) {
		if( t.cls.empty() ) { if( t.path.compare(0, 5, "/dev/") == 0 && t.path.compare(0, 9, "/dev/shm/") != 0 ) return false; if( t.path.compare(0, 6, "/proc/") == 0 ) return false; t.cls = "EXT"; }
		if( s.kind == K_PATH2 && t.cls2.empty() ) t.cls2 = "EXT";
		return true;
	}
	return !t.cls.empty();
}

static bool write_like(Task &t) { return t.s->kind == K_WRITE || t.s->kind == K_PWRITE || t.s->kind == K_WRITEV; }
static bool read_like(Task &t) { return t.s->kind == K_READ || t.s->kind == K_PREAD || t.s->kind == K_READV; }

static void limit_size(Task &t, long n)
{
	if( n >= t.size ) return;
	if( t.s->kind == K_WRITEV || t.s->kind == K_READV ) {
		size_t c = std::min<size_t>(64, t.regs.rdx); vector<struct iovec> v(c); struct iovec l = {v.data(), c * sizeof(struct iovec)}, rm = {(void *)t.regs.rsi, c * sizeof(struct iovec)};
		process_vm_readv(t.pid, &l, 1, &rm, 1, 0); t.iov_saved = v; t.iov_addr = t.regs.rsi; long left = n;
		for( auto &x : v ) { long k = std::min<long>(left, (long)x.iov_len); x.iov_len = k; left -= k; }
		l.iov_base = v.data(); process_vm_writev(t.pid, &l, 1, &rm, 1, 0);
	}
	else { t.regs.rdx = (u64)n; set_regs(t.pid, t.regs); }
}

static string spec_applied(const Fault &f) { return f.action + ":" + std::to_string(f.p); }

// executes the pending event of task t (decides faults); leaves the task running
static void execute(Task &t)
{
	t.pending = false;
	pid_t pid = t.pid;
	Fault *hit = nullptr;
	for( auto &f : faults ) {
		if( f.proc != t.proc ) continue;
		if( !f.persistent ) { if( f.ops.empty() ? f.at == t.evidx && !f.hits : t.evidx >= f.at && !f.hits && f.ops.find("," + string(t.s->name) + ",") != string::npos ) hit = &f; }
		else if( t.evidx >= f.at && (f.cls == t.cls || f.cls == "*") && f.ops.find("," + string(t.s->name) + (t.s->kind == K_OPEN && is_mut(t) ? "w" : "") + ",") != string::npos ) hit = &f;
		if( hit ) break;
	}
	long limit = -1; long err = 0; bool kill_before = false;
	if( hit ) {
		const string &a = hit->action; bool ok = true;
		if( a == "errno" ) { if( t.s->kind == K_RANDOM ) ok = false; else err = hit->p; }
		else if( a == "short" ) { if( (write_like(t) || read_like(t)) && t.size > hit->p && hit->p >= 1 ) limit = hit->p; else ok = false; }
		else if( a == "torn" ) { if( write_like(t) ) { limit = std::max<long>(1, std::min(hit->p, t.size)); t.kill_after = "lineage"; } else t.kill_after = "lineage"; }
		else if( a == "kill" ) kill_before = true;
		else if( a == "killafter" ) t.kill_after = "lineage";
		else if( a == "killone" ) { if( t.ord > 0 ) t.kill_after = "one"; else ok = false; }
		else if( a == "signal" ) { set<pid_t> ps = procs[t.proc].tasks; for( pid_t q : ps ) kill(q, (int)hit->p); }
		else die("bad action " + a);
		if( ok ) { t.applied = spec_applied(*hit); hit->hits++; }
	}
	if( disk_on && !err && !kill_before && disk_left.count(t.cls) ) {
		long &left = disk_left[t.cls];
		if( write_like(t) ) {
			long want = limit >= 0 ? std::min(limit, t.size) : t.size;
			if( left <= 0 && want > 0 ) { err = ENOSPC; t.applied = "disk:full"; limit = -1; }
			else if( want > left ) { limit = left; t.applied = "disk:part"; left = 0; }
			else left -= want;
		}
		else if( left <= 0 && (string(t.s->name) == "mkdir" || ((t.s->kind == K_OPEN || t.s->kind == K_CREAT) && t.flags.find('C') != string::npos && access(t.path.c_str(), F_OK) != 0)) ) { err = ENOSPC; t.applied = "disk:full"; }
	}
	if( kill_before ) { logev(t, -9999); t.in_event = false; kill_lineage(t.proc); return; }
	if( err ) {
		if( t.s->kind == K_CLOSE ) { t.has_force = true; t.force_ret = -err; }
		else {
			t.regs.orig_rax = (u64)-1; t.regs.rax = (u64)-err; set_regs(pid, t.regs);
			logev(t, -err); t.in_event = false; ptrace(PTRACE_CONT, pid, 0, 0); return;
		}
	}
	if( limit >= 0 ) limit_size(t, limit);
	t.in_event = true;
	ptrace(PTRACE_SYSCALL, pid, 0, 0);
}

static void sync_step(Task &t, long ret)
{
	if( !syncs.count(t.cls) && !(t.cls2.size() && syncs.count(t.cls2)) ) return;
	if( !is_mut(t) || ret < 0 ) return;
	fflush(logf_);
	printf("STEP\t%d\t%ld\t%s\t%s\n", t.proc, t.evidx, t.s->name, esc(t.path).c_str()); fflush(stdout);
	char b[64]; if( !fgets(b, sizeof b, stdin) ) die("sync: no answer");
	if( b[0] == 'k' ) kill_lineage(t.proc);
}

static std::function<void(Task &)> do_event;
static void thread_go(Task &t)
{
	int w = t.tw; t.tw = 0;
	if( w == 1 ) do_event(t);
	else ptrace(t.in_event ? PTRACE_SYSCALL : PTRACE_CONT, t.pid, 0, 0);
}
static bool same_group(pid_t a, pid_t b)
{
	auto tg = [](pid_t p) { std::ifstream f("/proc/" + std::to_string(p) + "/status"); string l; while( std::getline(f, l) ) if( l.compare(0, 5, "Tgid:") == 0 ) return atol(l.c_str() + 5); return -1l; };
	return tg(a) == tg(b);
}

// directory entries come in an order of our choice
static void shuffle_dir(Task &t, long n)
{
	vector<char> b((size_t)n), o; struct iovec l = {b.data(), b.size()}, rm = {(void *)t.regs.rsi, b.size()};
	if( process_vm_readv(t.pid, &l, 1, &rm, 1, 0) != n ) return;
	vector<std::pair<size_t, size_t>> e; u64 h = dir_seed;
	for( size_t i = 0; i + 19 <= b.size(); ) { unsigned short len; memcpy(&len, &b[i + 16], 2); if( !len || i + len > b.size() ) return; e.push_back({i, len}); i += len; }
	// independent of the kernel's order: sort by name first
	std::sort(e.begin(), e.end(), [&](std::pair<size_t, size_t> const &x, std::pair<size_t, size_t> const &y) { return strcmp(&b[x.first + 19], &b[y.first + 19]) < 0; });
	for( auto &x : e ) for( const char *c = &b[x.first + 19]; *c; ++c ) h = h * 131 + (unsigned char)*c;
	Rng r(h); for( size_t i = e.size(); i > 1; --i ) std::swap(e[i - 1], e[r.below(i)]);
	for( auto &x : e ) o.insert(o.end(), b.begin() + (long)x.first, b.begin() + (long)(x.first + x.second));
	if( o.size() != b.size() ) return;
	l.iov_base = o.data(); process_vm_writev(t.pid, &l, 1, &rm, 1, 0);
}

static void alarm_handler(int) { for( auto &t : tasks ) kill(t.first, SIGKILL); if( logf_ ) { fprintf(logf_, "X\tstall\n"); fflush(logf_); } _exit(4); }

int main(int argc, char **argv)
{
	if( argc < 3 ) die("usage");
	for( auto &s : SYS ) by_nr[s.nr] = &s;
	read_plan(argv[1]);
	logf_ = fopen(argv[2], "w"); if( !logf_ ) die("log"); setvbuf(logf_, nullptr, _IOFBF, 1 << 16);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = alarm_handler; sigaction(SIGALRM, &sa, nullptr); alarm((unsigned)wall_limit);
	sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, nullptr);
	signal(SIGPIPE, SIG_IGN); if( tsched ) by_nr[SYS_futex] = &FUTEX;
	Rng srng(sched_seed), rrng(rand_seed);
	for( size_t i = 0; i < specs.size(); ++i ) spawn((int)i);
	set<int> ready; for( size_t i = 0; i < specs.size(); ++i ) ready.insert((int)i); // at a scheduling point
	set<int> fresh = ready;
	map<int, vector<pid_t>> pend; // proc -> tasks waiting at a yield event
	std::map<std::pair<int, long>, Task> late;
	bool anything_running = false;
	auto finished = [&]() { for( auto &p : procs ) if( !p.done || !p.tasks.empty() ) return false; return true; };
	auto schedule = [&]() {
		// choose among procs that are at a scheduling point
		vector<int> c; for( auto &p : procs ) if( fresh.count(p.id) || !pend[p.id].empty() ) c.push_back(p.id);
		if( c.empty() ) return false;
		int ch = c[0]; for( int x : c ) if( x == cur_proc ) ch = x;
		if( c.size() > 1 ) {
			long d = decisions++;
			if( preempt.count(d) ) { if( std::find(c.begin(), c.end(), preempt[d]) != c.end() ) ch = preempt[d]; }
			else if( sched_random && (long)srng.below(100) < sched_p ) { int k = c[srng.below(c.size())]; if( k != ch ) { ch = k; fprintf(logf_, "P\t%ld\t%d\n", d, ch); } }
		}
		cur_proc = ch;
		if( fresh.count(ch) ) { fresh.erase(ch); ptrace(PTRACE_CONT, procs[ch].main, 0, 0); }
		else { pid_t q = pend[ch].front(); pend[ch].erase(pend[ch].begin()); auto it = tasks.find(q); if( it == tasks.end() ) return true; execute(it->second); }
		return true;
	};
	bool multi = specs.size() > 1;
	do_event = [&](Task &t) {
		t.evidx = procs[t.proc].events++;
		if( ++total_events > budget && !overbudget ) { overbudget = true; fprintf(logf_, "X\tbudget\n"); for( auto &p : procs ) kill_lineage(p.id); ptrace(PTRACE_CONT, t.pid, 0, 0); return; }
		if( multi && (yields.count(t.cls) || (t.cls2.size() && yields.count(t.cls2))) ) { t.pending = true; pend[t.proc].push_back(t.pid); schedule(); }
		else execute(t);
	};
	schedule(); anything_running = true; (void)anything_running;
	while( !finished() ) {
		int st; pid_t pid = wait_event(&st);
		if( pid < 0 ) { if( errno == EINTR ) continue; if( errno == ECHILD ) break; die("waitpid"); }
		auto it = tasks.find(pid);
		if( WIFEXITED(st) || WIFSIGNALED(st) ) {
			if( it == tasks.end() ) continue;
			Task &t = it->second; int pr = t.proc;
			if( t.in_event || t.pending ) late.emplace(std::make_pair(pr, t.evidx), t); // logged at the end: the order in which killed tasks are reaped is not controlled
			Proc &p = procs[pr]; p.tasks.erase(pid);
			auto &pv = pend[pr]; pv.erase(std::remove(pv.begin(), pv.end(), pid), pv.end());
			bool was_main = pid == p.main;
			if( was_main ) { p.done = true; p.status = st; fprintf(logf_, "D\t%d\t%s\t%d\t%ld\t%d\n", pr, WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), p.events, p.killed ? 1 : 0); }
			tasks.erase(it);
			if( was_main && multi ) { // hand over
				if( pend[pr].empty() ) schedule();
			}
			else if( p.done && p.tasks.empty() && multi && !finished() ) schedule();
			continue;
		}
		if( !WIFSTOPPED(st) ) continue;
		int sig = WSTOPSIG(st); unsigned ev = (unsigned)st >> 16;
		if( it == tasks.end() ) { // new child seen before its parent's event: remember as orphan
			Task t; t.pid = pid; t.proc = -1; t.ord = -1; t.started = false; tasks[pid] = t; continue;
		}
		Task &t = it->second;
		if( t.proc < 0 ) continue;
		if( ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE ) {
			unsigned long np = 0; ptrace(PTRACE_GETEVENTMSG, pid, 0, &np); pid_t c = (pid_t)np; Proc &p = procs[t.proc];
			bool seen = tasks.count(c);
			Task n; n.pid = c; n.proc = t.proc; n.ord = p.ntasks++; n.started = true; tasks[c] = n; p.tasks.insert(c);
			if( !seen ) { int s2; waitpid(c, &s2, __WALL); }
			if( p.killed ) kill(c, SIGKILL);
			if( tsched && !p.killed && ev != PTRACE_EVENT_VFORK && (p.threads || same_group(pid, c)) ) { p.threads = true; p.idle = 0; tasks[c].tw = 2; tasks[pid].tw = 3; continue; }
			ptrace(PTRACE_CONT, c, 0, 0);
			if( p.threads ) { ptrace(tasks[pid].in_event ? PTRACE_SYSCALL : PTRACE_CONT, pid, 0, 0); continue; }
			Task &tt = tasks[pid]; tt.held = true; p.held.push_back(pid); p.idle = 0; continue;
		}
		if( ev == PTRACE_EVENT_EXEC ) { ptrace(t.in_event ? PTRACE_SYSCALL : PTRACE_CONT, pid, 0, 0); continue; }
		if( ev == PTRACE_EVENT_SECCOMP ) {
			if( ptrace(PTRACE_GETREGS, pid, 0, &t.regs) ) { continue; }
			int nr = (int)t.regs.orig_rax; auto f = by_nr.find(nr);
			if( f == by_nr.end() ) { ptrace(PTRACE_CONT, pid, 0, 0); continue; }
			t.s = f->second;
			if( t.s->kind == K_SLEEP ) {
				u64 ts[2] = {0, 0}; u64 a = nr == SYS_nanosleep ? t.regs.rdi : t.regs.rdx; struct iovec l = {ts, 16}, rm = {(void *)a, 16}; process_vm_readv(pid, &l, 1, &rm, 1, 0);
				sim_sleep_ns += (long)(ts[0] * 1000000000ull + ts[1]); t.regs.orig_rax = (u64)-1; t.regs.rax = 0; set_regs(pid, t.regs);
				if( ++total_events > budget ) { overbudget = true; fprintf(logf_, "X\tbudget\n"); for( auto &p : procs ) kill_lineage(p.id); }
				ptrace(PTRACE_CONT, pid, 0, 0); continue;
			}
			if( t.s->kind == K_RANDOM ) {
				long n = (long)t.regs.rsi; if( n > 4096 ) n = 4096; vector<unsigned char> b(n); for( auto &x : b ) x = (unsigned char)rrng.next();
				struct iovec l = {b.data(), (size_t)n}, rm = {(void *)t.regs.rdi, (size_t)n}; process_vm_writev(pid, &l, 1, &rm, 1, 0); t.regs.orig_rax = (u64)-1; t.regs.rax = (u64)n; set_regs(pid, t.regs); ptrace(PTRACE_CONT, pid, 0, 0); continue;
			}
			if( t.s->kind == K_FUTEX ) {
				t.wake = procs[t.proc].threads; // both who wakes and who is woken stop at the end of the call
				ptrace(t.wake ? PTRACE_SYSCALL : PTRACE_CONT, pid, 0, 0); continue;
			}
			procs[t.proc].rawsys++;
			if( !classify_event(t) || invisible(t.cls) ) { ptrace(PTRACE_CONT, pid, 0, 0); continue; }
			if( procs[t.proc].threads && procs[t.proc].tasks.size() > 1 ) { t.tw = 1; procs[t.proc].idle = 0; continue; }
			do_event(t);
			continue;
		}
		if( sig == (SIGTRAP | 0x80) ) { // syscall exit of an event
			struct user_regs_struct r; if( ptrace(PTRACE_GETREGS, pid, 0, &r) ) continue;
			if( t.wake ) { t.wake = false; t.tw = 3; procs[t.proc].idle = 0; continue; }
			if( !t.in_event ) { ptrace(PTRACE_CONT, pid, 0, 0); continue; }
			if( !t.iov_saved.empty() ) { struct iovec l = {t.iov_saved.data(), t.iov_saved.size() * sizeof(struct iovec)}, rm = {(void *)t.iov_addr, l.iov_len}; process_vm_writev(pid, &l, 1, &rm, 1, 0); t.iov_saved.clear(); }
			if( t.has_force ) { r.rax = (u64)t.force_ret; set_regs(pid, r); }
			long ret = (long)r.rax; if( t.s->kind == K_FORK && ret > 0 ) ret = 1; if( t.s->kind == K_MMAP && (ret > 0 || ret < -4095) ) ret = 0;
			if( dir_seed && t.s->kind == K_READDIR && ret > 0 ) shuffle_dir(t, ret);
			logev(t, ret); t.in_event = false;
			if( t.kill_after == "lineage" ) { kill_lineage(t.proc); continue; }
			if( t.kill_after == "one" ) { kill(pid, SIGKILL); continue; }
			sync_step(t, ret);
			ptrace(PTRACE_CONT, pid, 0, 0); continue;
		}
		// signal delivery / group stops
		if( sig == SIGTRAP || sig == SIGSTOP ) { ptrace(t.in_event ? PTRACE_SYSCALL : PTRACE_CONT, pid, 0, sig == SIGTRAP ? 0 : 0); continue; }
		if( sig == SIGXCPU ) fprintf(logf_, "X\tcpu\n");
		ptrace(t.in_event ? PTRACE_SYSCALL : PTRACE_CONT, pid, 0, sig);
	}
	for( auto &l : late ) logev(l.second, -9998);
	for( auto &f : faults ) fprintf(logf_, "F\t%d\t%ld\t%s\t%ld\t%ld\n", f.proc, f.at, f.action.c_str(), f.p, f.hits);
	fprintf(logf_, "Z\t%ld\t%ld\t%ld\t%ld\n", total_events, decisions, sim_sleep_ns, tdecisions);
	fclose(logf_);
	return 0;
}
