// Stand-ins for the external tools build.py drives (git, curl, tar, cmake, ninja, compilers, which).
// One executable, called through symlinks.  Deterministic; every effect is a plain file operation in
// the current directory, so that the simulator can fail or kill it anywhere.
//   FAKE_LOG   every invocation is recorded there (outside the simulated disk)
//   FAKE_FAIL  "n:mode": the n-th recorded invocation fails (early | mid | late)
//   FAKE_GCC / FAKE_CLANG  versions reported by -dumpversion
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using std::string;
using std::vector;
static string mode; // failure mode of this invocation
static void die(string const &m, int rc = 1) { string s = m + "\n"; if( write(2, s.data(), s.size()) ) {} _exit(rc); }
static void fail_at(char const *m, int rc) { if( mode == m && getenv("FAKE_RC") ) { rc = atoi(getenv("FAKE_RC")); if( rc < 0 ) { kill(getpid(), -rc); pause(); } } if( mode == m ) die(string("simulated failure (") + m + ")", rc); }
static bool exists(string const &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static string slurp(string const &p, bool must = true)
{
	int fd = open(p.c_str(), O_RDONLY); if( fd < 0 ) { if( must ) die("cannot read " + p); return ""; }
	string r; char b[4096]; ssize_t n; while( (n = read(fd, b, sizeof b)) > 0 ) r.append(b, n); if( n < 0 ) die("read error " + p); close(fd); return r;
}
static void wr(int fd, string const &s) { size_t i = 0; while( i < s.size() ) { ssize_t n = write(fd, s.data() + i, s.size() - i); if( n <= 0 ) { if( n < 0 && errno == EINTR ) continue; die("write error"); } i += n; } }
static void mkdirs(string const &p) { for( size_t i = 1; i <= p.size(); ++i ) if( i == p.size() || p[i] == '/' ) { string d = p.substr(0, i); if( mkdir(d.c_str(), 0755) && errno != EEXIST ) die("cannot create directory " + d); } }
static void put(string const &p, string const &s, int m = 0644)
{
	size_t k = p.rfind('/'); if( k != string::npos && k > 0 ) mkdirs(p.substr(0, k));
	if( unlink(p.c_str()) && errno != ENOENT ) die("cannot unlink " + p); // like tar, git and ld: new inode
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, m); if( fd < 0 ) die("cannot write " + p);
	size_t h = s.size() / 2; wr(fd, s.substr(0, h)); wr(fd, s.substr(h)); if( close(fd) ) die("close error " + p);
}
static void rmrf(string const &p) { if( fork() == 0 ) { execl("/bin/rm", "rm", "-rf", "--", p.c_str(), (char *)0); _exit(1); } int st; wait(&st); }

static int count_log()
{
	char const *l = getenv("FAKE_LOG"); if( !l ) return 0; string s = slurp(l, false); return (int)std::count(s.begin(), s.end(), '\n');
}
static void record(string const &what)
{
	int n = count_log();
	if( char const *l = getenv("FAKE_LOG") ) { int fd = open(l, O_WRONLY | O_APPEND | O_CREAT, 0644); if( fd >= 0 ) { wr(fd, what + "\n"); close(fd); } }
	if( char const *f = getenv("FAKE_FAIL") ) { string s = f; size_t k = s.find(':'); if( k != string::npos && atoi(s.c_str()) == n ) mode = s.substr(k + 1); }
}

// ---------------------------------------------------------------- curl | tar
static void entry(string &o, string const &p, string const &c) { o += "F " + p + " " + std::to_string(c.size()) + "\n" + c; }
static int curl(vector<string> const &a)
{
	string url, out; bool remote = false;
	for( size_t i = 0; i < a.size(); ++i ) {
		string const &x = a[i];
		if( (x == "-o" || x == "--output") && i + 1 < a.size() ) out = a[++i];
		else if( x == "--remote-name" || (x.size() > 1 && x[0] == '-' && x[1] != '-' && x.find('O') != string::npos) ) remote = true;
		if( x.size() > 2 && x[0] == '-' && x[1] != '-' && x.back() == 'o' && i + 1 < a.size() ) out = a[++i];
	}
	for( auto &x : a ) if( x.compare(0, 8, "https://") == 0 || x.compare(0, 7, "http://") == 0 ) url = x;
	record("curl " + url); fail_at("early", 6);
	size_t k = url.rfind('/'); string b = k == string::npos ? "" : url.substr(k + 1); string o;
	if( remote && out.empty() ) out = b;
	int to = 1;
	if( !out.empty() && out != "-" ) { to = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if( to < 0 ) die("curl: cannot write " + out, 23); }
	string const suf = ".src.tar.xz";
	size_t d = b.find('-');
	if( b.size() < suf.size() || b.compare(b.size() - suf.size(), suf.size(), suf) || d == string::npos ) { wr(to, "<html>404 Not Found</html>"); return 0; }
	string pkg = b.substr(0, d), v = b.substr(d + 1, b.size() - suf.size() - d - 1), dir = pkg + "-" + v + ".src";
	string pad(300, '#');
	o = "TAR\n";
	if( pkg == "llvm" ) {
		entry(o, dir + "/CMakeLists.txt", "llvm " + v + "\n"); entry(o, dir + "/lib/a.cpp", "a " + v + pad + "\n"); entry(o, dir + "/lib/b.cpp", "b " + v + "\n"); entry(o, dir + "/tools/CMakeLists.txt", "tools " + v + "\n");
		entry(o, "cmake/Modules/x.cmake", "x " + v + "\n"); entry(o, "cmake/Modules/y.cmake", "y " + v + "\n");
	}
	else if( pkg == "clang" || pkg == "cfe" ) { entry(o, dir + "/CMakeLists.txt", "clang " + v + "\n"); entry(o, dir + "/lib/c.cpp", "c " + v + pad + "\n"); entry(o, dir + "/tools/CMakeLists.txt", "ctools " + v + "\n"); }
	else { wr(to, "<html>404 Not Found</html>"); return 0; }
	o += "END\n";
	if( mode == "mid" ) { wr(to, o.substr(0, o.size() / 2)); return 18; }
	wr(to, o); fail_at("late", 56);
	return 0;
}
static int tar(vector<string> const &a)
{
	record("tar"); fail_at("early", 2);
	string dir, file; int strip = 0;
	for( size_t i = 0; i < a.size(); ++i ) {
		string const &x = a[i];
		if( (x == "-C" || x == "--directory") && i + 1 < a.size() ) dir = a[++i];
		else if( x.compare(0, 12, "--directory=") == 0 ) dir = x.substr(12);
		else if( x.compare(0, 19, "--strip-components=") == 0 ) strip = atoi(x.c_str() + 19);
		else if( x.compare(0, 8, "--strip=") == 0 ) strip = atoi(x.c_str() + 8);
		else if( x == "--strip-components" && i + 1 < a.size() ) strip = atoi(a[++i].c_str());
		else if( x.compare(0, 7, "--file=") == 0 ) file = x.substr(7);
		else if( x == "--file" && i + 1 < a.size() ) file = a[++i];
		else if( (i == 0 || x[0] == '-') && x.compare(0, 2, "--") && x.back() == 'f' && i + 1 < a.size() ) file = a[++i];
	}
	int in = 0; if( !file.empty() && file != "-" ) { in = open(file.c_str(), O_RDONLY); if( in < 0 ) die("tar: cannot open " + file, 2); }
	if( !dir.empty() && chdir(dir.c_str()) ) die("tar: " + dir + ": Cannot open", 2);
	string s; char b[4096]; ssize_t n; while( (n = read(in, b, sizeof b)) > 0 ) s.append(b, n); if( n < 0 ) die("tar: read error", 2);
	if( s.compare(0, 4, "TAR\n") ) die("tar: file format not recognized", 2);
	size_t i = 4; int k = 0;
	while( i < s.size() ) {
		size_t e = s.find('\n', i); if( e == string::npos ) break; string h = s.substr(i, e - i); i = e + 1;
		if( h == "END" ) { fail_at("late", 2); return 0; }
		size_t p = h.rfind(' '); if( h.compare(0, 2, "F ") || p == string::npos ) die("tar: bad header", 2);
		size_t len = strtoul(h.c_str() + p, 0, 10); string name = h.substr(2, p - 2);
		if( ++k == 3 ) fail_at("mid", 2);
		for( int q = 0; q < strip && !name.empty(); ++q ) { size_t sl = name.find('/'); name = sl == string::npos ? "" : name.substr(sl + 1); }
		if( !name.empty() ) put(name, s.substr(i, len));
		i += len;
	}
	die("tar: unexpected end of input", 2); return 2;
}

// ---------------------------------------------------------------- git
static bool valid_repo(string const &d) { return exists(d + "/.git/HEAD") && exists(d + "/.git/config"); }
static string find_repo() { string d; { char b[4096]; if( !getcwd(b, sizeof b) ) die("cwd"); d = b; } while( !d.empty() ) { if( valid_repo(d) ) return d; d = d.substr(0, d.rfind('/')); } die("fatal: not a git repository", 128); return ""; }
static void work_tree(string const &d, string const &rev) { put(d + "/include/pybind11/pybind11.h", "// pybind11 " + rev + "\n"); if( mode == "mid" ) return; put(d + "/include/pybind11/pytypes.h", "// pytypes " + rev + "\n"); put(d + "/include/pybind11/detail/common.h", "// common " + rev + "\n"); }
static int git(vector<string> a)
{
	while( a.size() > 1 && (a[0] == "-C" || a[0] == "-c") ) { if( a[0] == "-C" && chdir(a[1].c_str()) ) die("fatal: cannot change to '" + a[1] + "'", 128); a.erase(a.begin(), a.begin() + 2); }
	string c = a.empty() ? "" : a[0], all; for( auto &x : a ) all += " " + x;
	record("git" + all); fail_at("early", 128);
	if( c == "rev-parse" || c == "log" || c == "show" || c == "describe" ) { string r = find_repo(); wr(1, slurp(r + "/.git/HEAD")); return 0; }
	if( c == "status" || c == "diff" || c == "config" || c == "remote" || c == "submodule" || c == "init" || c == "gc" ) { find_repo(); return 0; }
	if( c == "clone" ) {
		vector<string> p; for( size_t i = 1; i < a.size(); ++i ) { if( a[i] == "--depth" || a[i] == "-b" || a[i] == "--branch" || a[i] == "-c" ) ++i; else if( a[i][0] != '-' ) p.push_back(a[i]); }
		if( p.empty() || p[0].find("pybind11") == string::npos ) die("fatal: repository not found", 128);
		string d = p.size() > 1 ? p[1] : "pybind11";
		if( exists(d) ) { if( rmdir(d.c_str()) ) die("fatal: destination path '" + d + "' already exists and is not an empty directory.", 128); }
		mkdirs(d + "/.git"); put(d + "/.git/HEAD", "ref: master\n"); put(d + "/.git/objects", "partial\n");
		if( mode == "mid" ) { rmrf(d); die("fatal: early EOF", 128); }
		put(d + "/.git/config", "url\n"); put(d + "/.git/objects", "complete\n"); work_tree(d, "master"); put(d + "/.git/index", "master\n");
		fail_at("late", 128); return 0;
	}
	string r = find_repo();
	if( slurp(r + "/.git/objects", false) != "complete\n" ) die("fatal: bad object", 128);
	if( c == "clean" ) return 0;
	if( c == "fetch" || c == "pull" ) { put(r + "/.git/FETCH_HEAD", "fetched\n"); fail_at("mid", 128); fail_at("late", 128); return 0; }
	if( c == "reset" || c == "checkout" ) {
		string rev = a.back(); if( rev.size() != 40 ) die("fatal: ambiguous argument " + rev, 128);
		string lock = r + "/.git/index.lock"; int fd = open(lock.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);
		if( fd < 0 ) die("fatal: Unable to create '" + lock + "': File exists.", 128);
		wr(fd, rev + "\n"); close(fd); work_tree(r, rev);
		if( mode == "mid" ) { unlink(lock.c_str()); die("fatal: could not reset", 128); }
		if( rename(lock.c_str(), (r + "/.git/index").c_str()) ) die("fatal: rename", 128);
		put(r + "/.git/HEAD.lock", rev + "\n"); if( rename((r + "/.git/HEAD.lock").c_str(), (r + "/.git/HEAD").c_str()) ) die("fatal: rename", 128);
		fail_at("late", 128); return 0;
	}
	die("git: unknown command " + c, 1); return 1;
}

// ---------------------------------------------------------------- cmake, ninja
static string word(string s) { while( !s.empty() && (s.back() == '\n' || s.back() == '#') ) s.pop_back(); return s; }
static int ninja(vector<string> a);
static int cmake(vector<string> a)
{
	string S, B;
	if( a.size() > 1 && a[0] == "--build" ) { vector<string> r{"-C", a[1]}; bool t = false; for( size_t i = 2; i < a.size(); ++i ) { if( a[i] == "--target" || a[i] == "-t" ) { t = true; continue; } if( a[i] == "-j" || a[i] == "--parallel" || a[i] == "--" || a[i] == "--config" ) { t = false; continue; } if( t ) r.push_back(a[i]); } return ninja(r); }
	for( size_t i = 0; i < a.size(); ) {
		if( (a[i] == "-S" || a[i] == "-B") && i + 1 < a.size() ) { (a[i] == "-S" ? S : B) = a[i + 1]; a.erase(a.begin() + i, a.begin() + i + 2); }
		else if( a[i] == "-G" && i + 1 < a.size() ) a.erase(a.begin() + i, a.begin() + i + 2);
		else ++i;
	}
	if( !S.empty() && S[0] != '/' ) { char b[4096]; if( getcwd(b, sizeof b) ) S = string(b) + "/" + S; }
	if( !B.empty() ) { mkdirs(B); if( chdir(B.c_str()) ) die("cmake: " + B); }
	if( !S.empty() ) a.push_back(S);
	string all; for( auto &x : a ) all += " " + x; record("cmake"); fail_at("early", 1);
	string cxx, type, gip, src = a.empty() || a.back()[0] == '-' ? "." : a.back(); for( auto &x : a ) { if( x.compare(0, 21, "-DCMAKE_CXX_COMPILER=") == 0 ) { cxx = x.substr(21); cxx = cxx.substr(cxx.rfind('/') + 1); } if( x.compare(0, 18, "-DCMAKE_BUILD_TYPE") == 0 ) type = x.substr(19); if( x.compare(0, 21, "-DGCC_INSTALL_PREFIX=") == 0 ) gip = "|" + x.substr(21); }
	string l = word(slurp(src + "/CMakeLists.txt")), t = word(slurp(src + "/tools/CMakeLists.txt")), c = word(slurp(src + "/tools/clang/CMakeLists.txt")), ct = word(slurp(src + "/tools/clang/tools/CMakeLists.txt")), e = slurp(src + "/tools/clang/tools/extra/CMakeLists.txt"), x = word(slurp(src + "/../cmake/Modules/x.cmake")), y = word(slurp(src + "/../cmake/Modules/y.cmake"));
	bool target = false; { size_t i = 0; while( i < e.size() ) { size_t k = e.find('\n', i); if( k == string::npos ) k = e.size(); if( e.substr(i, k - i) == "add_subdirectory(binder)" ) target = true; i = k + 1; } }
	if( target && !exists(src + "/tools/clang/tools/extra/binder/CMakeLists.txt") ) die("CMake Error: add_subdirectory given source binder which is not an existing directory.");
	put("CMakeCache.txt", all + "\n"); fail_at("mid", 1);
	put("build.ninja", "src " + src + "\nconf " + l + "|" + t + "|" + c + "|" + ct + "|" + x + "|" + y + "|" + cxx + "|" + type + gip + "\n" + (target ? "target binder\n" : "") + "end\n");
	fail_at("late", 1); return 0;
}
static int ninja(vector<string> a)
{
	for( size_t i = 0; i < a.size(); ) { if( (a[i] == "-C" || a[i] == "-j" || a[i] == "-l" || a[i] == "-k") && i + 1 < a.size() ) { if( a[i] == "-C" && chdir(a[i + 1].c_str()) ) die("ninja: " + a[i + 1]); a.erase(a.begin() + i, a.begin() + i + 2); } else ++i; }
	string all; for( auto &x : a ) all += " " + x; record("ninja" + all); fail_at("early", 1);
	string b = slurp("build.ninja"); if( b.size() < 4 || b.compare(b.size() - 4, 4, "end\n") ) die("ninja: error: build.ninja: unexpected EOF");
	string src = b.substr(4, b.find('\n') - 4); size_t k = b.find("conf "); string conf = b.substr(k + 5, b.find('\n', k) - k - 5);
	string log = slurp(".ninja_log", false);
	auto obj = [&](string const &o, string const &s) { // an object is up to date if the log says it was built from the same source
		string c = word(slurp(s)); string ent = o + "=" + c + "\n";
		if( log.find(ent) == string::npos || !exists(o) ) { put(o, "obj " + c + "\n"); log += ent; int fd = open(".ninja_log", O_WRONLY | O_APPEND | O_CREAT, 0644); if( fd < 0 ) die("ninja log"); wr(fd, ent); close(fd); }
		return word(slurp(o));
	};
	for( auto &x : a ) {
		if( x[0] == '-' ) continue;
		if( x == "binder" ) {
			if( b.find("target binder\n") == string::npos ) die("ninja: error: unknown target 'binder'");
			string o1 = obj("lib/a.o", src + "/lib/a.cpp"), o2 = obj("lib/b.o", src + "/lib/b.cpp"), o3 = obj("lib/c.o", src + "/tools/clang/lib/c.cpp"); fail_at("mid", 1);
			string rev = word(slurp(src + "/tools/clang/tools/extra/binder/REV")); put("bin/binder", "#!binder rev=" + rev + " conf=" + conf + " objs=" + o1 + "," + o2 + "," + o3 + " end\n", 0755);
		}
		else if( x.find("Headers") != string::npos ) put("lib/clang/include/stddef.h", "headers " + word(slurp(src + "/tools/clang/CMakeLists.txt")) + " target=" + x.substr(x.rfind('/') + 1) + " end\n");
		else if( x == "clang" ) put("bin/clang", "clang\n", 0755);
		else die("ninja: error: unknown target '" + x + "'");
	}
	fail_at("late", 1); return 0;
}

static int selftest(vector<string> const &a)
{
	string b, p; for( size_t i = 0; i + 1 < a.size(); ++i ) { if( a[i] == "--binder" ) b = a[i + 1]; if( a[i] == "--pybind11" ) p = a[i + 1]; }
	string s = "self-test [" + slurp(b) + "] [" + slurp(p + "/pybind11/pybind11.h") + slurp(p + "/pybind11/pytypes.h") + slurp(p + "/pybind11/detail/common.h") + "]";
	for( char &c : s ) if( c == '\n' ) c = '~';
	record(s); fail_at("early", 1);
	put("out.tmp", "x\n"); fail_at("mid", 1); unlink("out.tmp"); fail_at("late", 1);
	if( char const *l = getenv("FAKE_LOG") ) { int fd = open(l, O_WRONLY | O_APPEND | O_CREAT, 0644); if( fd >= 0 ) { wr(fd, "self-test-ok\n"); close(fd); } }
	return 0;
}
int main(int argc, char **argv)
{
	string n = argv[0]; n = n.substr(n.rfind('/') + 1); vector<string> a(argv + 1, argv + argc);
	umask(022);
	if( getenv("FAKE_NOISE") && n != "curl" && n != "git" && n != "which" && n != "clang" && n != "gcc" ) { string z; while( (int)z.size() < atoi(getenv("FAKE_NOISE")) ) z += n + ": warning: something to talk about\n"; wr(2, z); if( n != "tar" ) wr(1, z); }
	if( n == "self-test.py" ) return selftest(a);
	if( n == "curl" ) return curl(a);
	if( n == "tar" ) return tar(a);
	if( n == "git" ) return git(a);
	if( n == "cmake" ) return cmake(a);
	if( n == "ninja" ) return ninja(a);
	if( n == "wget" ) { vector<string> b; bool o = false; for( size_t i = 0; i < a.size(); ++i ) { if( (a[i] == "-O" || a[i] == "-qO") && i + 1 < a.size() ) { b.push_back("-o"); b.push_back(a[++i]); o = true; } else if( a[i] == "-O-" || a[i] == "-qO-" ) o = true; else b.push_back(a[i]); } if( !o ) b.push_back("-O"); return curl(b); }
	if( n == "which" ) { string r = argc > 1 ? argv[1] : ""; char const *p = getenv("FAKE_BIN"); wr(1, string(p ? p : "/usr/bin") + "/" + r + "\n"); return 0; }
	if( n == "clang++" ) n = "clang"; if( n == "g++" ) n = "gcc";
	if( n == "clang" || n == "gcc" ) { record(n); fail_at("early", 1); char const *v = getenv(n == "gcc" ? "FAKE_GCC" : "FAKE_CLANG"); wr(1, string(v ? v : "14") + "\n"); return 0; }
	die("unknown tool " + n, 127);
}
