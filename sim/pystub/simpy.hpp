// Simulated interpreter and seeded thread scheduler for generated bindings (property C14).
// Exactly one simulated thread runs at any time; every access to the interpreter, every lock operation and every C++ body is a scheduling point.
#pragma once
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

namespace simpy {
using std::string; using std::vector;

struct Op { char kind = 'v'; size_t idx = 0; vector<int> ch; size_t pos = 0; int next() { return pos < ch.size() ? ch[pos++] : 0; } };
struct Thr {
	int id = 0; bool python = false; vector<Op> ops; Op *cur = nullptr; Op helper;
	string frames;             // A: lock acquired by a trampoline, R: lock released by a guard, G: user guard, B: bound call, P: interpreter code
	int nothrow = 0, depth = 0;
	int state = 0;             // 0 runnable, 1 waits for the lock, 2 waits for thread 'join', 3 done
	int join = -1; bool in_body_wait = false, is_helper = false;
	pthread_t pt; pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
};
struct Bound { string name; std::function<void(Thr &)> call; };
struct Virt { string name; std::function<bool()> has; std::function<void()> call; bool nx; };

inline vector<Bound> bound; inline vector<Virt> virts;
inline vector<std::unique_ptr<Thr>> thr; inline int cur = -1; inline int owner = -1; inline pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; inline pthread_cond_t main_cv = PTHREAD_COND_INITIALIZER; inline bool main_turn = true;
inline string guard = "-"; inline bool fallback_wait = false;
inline std::map<long, int> preempt; inline bool use_preempt = false; inline unsigned long rng_state = 1; inline int sched_p = 30; inline long decision = 0; inline vector<std::pair<long, int>> taken; inline long steps = 0, step_budget = 20000;
inline string trace; inline unsigned long hash_ = 1469598103934665603ul;
inline std::map<string, long> seen;

inline unsigned long rnd() { rng_state += 0x9e3779b97f4a7c15ul; unsigned long z = rng_state; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ul; z = (z ^ (z >> 27)) * 0x94d049bb133111ebul; return z ^ (z >> 31); }
inline Thr &me() { return *thr[cur]; }
inline void note(string const &s) { string l = std::to_string(cur) + ":" + s + " lock=" + std::to_string(owner) + "\n"; for( char c : l ) { hash_ ^= (unsigned char)c; hash_ *= 1099511628211ul; } trace += l; if( trace.size() > 60000 ) trace.erase(0, 30000); }
[[noreturn]] inline void violation(string const &cls, string const &what)
{
	printf("VIOL\t%s\t%s\n", cls.c_str(), what.c_str());
	printf("HASH\t%lx\n", hash_);
	for( auto &p : taken ) printf("PREEMPT\t%ld\t%d\n", p.first, p.second);
	size_t k = trace.size() > 1500 ? trace.find('\n', trace.size() - 1500) + 1 : 0; string t = trace.substr(k); for( char &c : t ) if( c == '\n' ) c = '|';
	printf("TRACE\t%s\n", t.c_str());
	fflush(stdout); _Exit(3);
}
inline void stuck()
{
	string w; bool fb = false;
	for( auto &t : thr ) if( t->state != 3 ) { w += " thread " + std::to_string(t->id) + (t->python ? " (interpreter thread)" : " (C++ thread)") + (t->state == 1 ? " waits for the interpreter lock;" : " waits for thread " + std::to_string(t->join) + " inside a C++ body;"); }
	if( owner >= 0 && thr[owner]->in_body_wait && !thr[owner]->frames.empty() && thr[owner]->frames.back() == 'A' ) fb = true;
	violation(fb ? "deadlock-in-base-implementation" : "deadlock", "no thread can go on: lock held by thread " + std::to_string(owner) + ";" + w);
}
// give the baton to another thread (or keep it); called by the running thread
inline void pick()
{
	if( ++steps > step_budget ) violation("no-progress", "more than " + std::to_string(step_budget) + " steps");
	vector<int> c; for( auto &t : thr ) { if( t->state == 1 && owner == -1 ) c.push_back(t->id); else if( t->state == 2 && thr[t->join]->state == 3 ) c.push_back(t->id); else if( t->state == 0 ) c.push_back(t->id); }
	if( c.empty() ) { bool done = true; for( auto &t : thr ) if( t->state != 3 ) done = false; if( !done ) stuck(); cur = -1; return; }
	int ch = c[0]; for( int x : c ) if( x == cur ) ch = x;
	if( c.size() > 1 ) {
		long d = decision++;
		if( use_preempt ) { auto i = preempt.find(d); if( i != preempt.end() ) for( int x : c ) if( x == i->second ) ch = x; }
		else if( (int)(rnd() % 100) < sched_p ) { int k = c[rnd() % c.size()]; if( k != ch ) { ch = k; taken.emplace_back(d, k); } }
	}
	cur = ch;
}
inline void handover(int self)
{
	if( cur == self ) return;
	if( cur >= 0 ) pthread_cond_signal(&thr[cur]->cv); else { main_turn = true; pthread_cond_signal(&main_cv); }
}
inline void wait_turn(int self) { Thr &t = *thr[self]; while( cur != self ) pthread_cond_wait(&t.cv, &mx); t.state = 0; }
inline void yield() { int self = cur; pick(); if( cur != self ) { handover(self); wait_turn(self); } }
// ---- interpreter lock
inline bool held() { return owner == cur; }
inline void acquire()
{
	int self = cur; yield();
	while( owner != -1 ) { thr[self]->state = 1; pick(); if( cur != self ) { handover(self); wait_turn(self); } thr[self]->state = 0; }
	owner = self; note("acquire");
}
inline void release() { if( !held() ) violation("lock-not-held", "thread " + std::to_string(cur) + " releases the interpreter lock it does not hold"); note("release"); owner = -1; yield(); }
inline void interp(string const &what)
{
	note(what);
	if( !held() ) violation("interpreter-used-without-lock", what + " by thread " + std::to_string(cur) + (me().python ? "" : " (C++ thread)") + " while the lock is " + (owner < 0 ? string("free") : "held by thread " + std::to_string(owner)));
	seen["interp"]++; yield();
}
// Python code may be switched out at any time: the lock is dropped and taken again
inline void eval_switch() { interp("switch"); if( me().depth ) release(), acquire(); }

struct py_error : std::runtime_error { py_error() : std::runtime_error("python exception") {} };
inline void call_bound(size_t i);
inline void call_virt(size_t i);
inline void spawn_and_wait(int v);
inline bool starts(char const *s, char const *p) { return strncmp(s, p, strlen(p)) == 0; }

// body of a C++ function or method of the bound library
inline void body(char const *name)
{
	Thr &t = me(); note(string("body ") + name);
	size_t b = t.frames.rfind('B'), a = t.frames.rfind('A'), p = t.frames.rfind('P');
	bool direct = b != string::npos && (a == string::npos || a < b) && (p == string::npos || p < b);   // called by the interpreter, no trampoline in between
	if( direct && guard != "-" ) {
		string after = t.frames.substr(b + 1);
		for( char g : guard ) if( after.find(g) == string::npos ) violation("body-without-guard", string("C++ body of ") + name + " called from the interpreter runs without the configured guard");
		if( guard.find('R') != string::npos && held() ) violation("body-without-guard", string("C++ body of ") + name + " runs with the interpreter lock held in spite of the configured guard");
		seen["guarded body"]++;
	}
	bool nx = starts(name, "nx"); if( nx ) t.nothrow++;
	struct Out { Thr &t; bool nx; ~Out() { if( nx ) t.nothrow--; } } out{t, nx};
	bool free_ = (t.frames.empty() && !t.python) || (direct && guard.find('R') != string::npos);
	bool in_fallback = a != string::npos && (b == string::npos || a > b) && (p == string::npos || a > p);
	if( in_fallback ) seen["base implementation"]++;
	yield();
	if( t.depth > 3 ) return;
	switch( t.cur->next() % 6 ) {
	case 1: case 5:
		if( t.is_helper ) break;
		if( free_ || (fallback_wait && in_fallback && guard.find('R') != string::npos) ) { seen["body waits"]++; spawn_and_wait(t.cur->next()); }
		break;
	case 2: if( !t.nothrow ) { seen["body throws"]++; throw std::runtime_error("c++ exception"); } break;
	case 3: if( !virts.empty() ) { seen["body calls back"]++; int k = t.cur->next(); call_virt((size_t)k % virts.size()); } break;
	default: yield();
	}
	yield();
}
// body of a Python override
inline void override_body(string const &name)
{
	Thr &t = me(); bool nx = starts(name.c_str(), "nx"); if( nx ) t.nothrow++; t.frames += 'P'; t.depth++;
	struct Out { Thr &t; bool nx; ~Out() { if( nx ) t.nothrow--; t.frames.pop_back(); t.depth--; } } out{t, nx};
	interp("override " + name); seen["override called"]++;
	if( t.depth > 3 ) return;
	switch( t.cur->next() % 8 ) {
	case 1: case 2: release(); acquire(); break;      // switched out by the interpreter
	case 3: if( !bound.empty() ) { int k = t.cur->next(); try { call_bound((size_t)k % bound.size()); } catch( py_error & ) { if( !t.nothrow && t.cur->next() % 2 ) throw; } } break;
	case 4: if( !t.nothrow ) { seen["override raises"]++; throw py_error(); } break;
	default: interp("python code");
	}
	interp("override returns");
}
inline void call_bound(size_t i)
{
	Thr &t = me(); if( t.depth > 3 ) return;
	if( !held() ) violation("lock-not-held", "harness: bound call without lock");
	size_t n = t.frames.size(); t.frames += 'B'; t.depth++; int nt = t.nothrow; t.nothrow = 0;
	struct Out { Thr &t; size_t n; int nt; ~Out() { t.depth--; t.nothrow = nt; } } out{t, n, nt};
	note("call " + bound[i].name); seen["bound call"]++;
	bool failed = false;
	try { bound[i].call(t); } catch( py_error & ) { failed = true; } catch( std::exception & ) { failed = true; }
	if( !held() ) violation("lock-not-restored", "after the call of " + bound[i].name + " the interpreter thread does not hold the lock");
	if( t.frames.size() != n + 1 ) violation("lock-not-restored", "after the call of " + bound[i].name + " lock or guard objects are left behind: " + t.frames);
	t.frames.resize(n);
	if( failed ) throw py_error();
}
inline void call_virt(size_t i)
{
	Virt &v = virts[i]; Thr &t = me(); if( t.depth > 3 || !v.has() ) return;
	bool before = held(); string fr = t.frames; t.depth++; if( v.nx ) t.nothrow++;
	struct Out { Thr &t; bool nx; ~Out() { t.depth--; if( nx ) t.nothrow--; } } out{t, v.nx};
	note("virtual " + v.name + (before ? " with lock" : "")); seen[before ? "virtual call with lock" : "virtual call without lock"]++;
	bool failed = false; string what;
	try { v.call(); } catch( std::exception &e ) { failed = true; what = e.what(); }
	if( held() != before ) violation("lock-not-restored", "virtual call of " + v.name + " by thread " + std::to_string(t.id) + (failed ? " that ended with an exception" : "") + (before ? " lost the interpreter lock" : " left the interpreter lock taken"));
	if( t.frames != fr ) violation("lock-not-restored", "virtual call of " + v.name + " left lock objects behind: " + t.frames);
	if( failed && !t.nothrow && !(v.nx && t.nothrow <= 1) && t.cur->next() % 2 ) throw py_error();
}
inline void *thread_main(void *p)
{
	Thr &t = *(Thr *)p; int self = t.id;
	pthread_mutex_lock(&mx); wait_turn(self);
	if( t.python ) { acquire(); t.depth = 0; }
	for( auto &o : t.ops ) {
		t.cur = &o; yield();
		if( o.kind == 'b' && t.python && !bound.empty() ) { try { call_bound(o.idx % bound.size()); } catch( py_error & ) {} }
		else if( !virts.empty() ) { try { call_virt(o.idx % virts.size()); } catch( py_error & ) {} }
		if( t.python ) { if( !held() ) violation("lock-not-restored", "interpreter thread lost the lock"); release(); acquire(); }
	}
	if( t.python ) release();
	if( owner == self ) violation("lock-not-restored", "thread ends with the lock taken");
	t.state = 3; note("end"); pick(); handover(self);
	pthread_mutex_unlock(&mx); return nullptr;
}
inline void start(Thr *t) { pthread_create(&t->pt, nullptr, thread_main, t); }
inline void spawn_and_wait(int c)
{
	Thr &t = me(); auto h = std::make_unique<Thr>(); h->id = (int)thr.size(); h->python = false; h->is_helper = true; Op o; o.kind = 'v'; o.idx = virts.empty() ? 0 : (size_t)c % virts.size(); o.ch = {1, c % 3}; h->ops.push_back(o); h->ops.push_back(o); h->ops[1].idx++; h->ops[1].ch = {0};
	int id = h->id; Thr *hp = h.get(); thr.push_back(std::move(h)); start(hp);
	int self = t.id; t.state = 2; t.join = id; t.in_body_wait = true; note("wait for thread " + std::to_string(id));
	pick(); if( cur != self ) { handover(self); wait_turn(self); } else thr[self]->state = 0;
	thr[self]->in_body_wait = false; note("waited");
}
inline void run_schedule(vector<std::unique_ptr<Thr>> threads)
{
	thr = std::move(threads); cur = -1; owner = -1; decision = 0; steps = 0; taken.clear(); trace.clear(); hash_ = 1469598103934665603ul; thr.reserve(256);
	pthread_mutex_lock(&mx); main_turn = false;
	for( size_t i = 0, n = thr.size(); i < n; ++i ) start(thr[i].get());
	pick(); if( cur >= 0 ) pthread_cond_signal(&thr[cur]->cv); else main_turn = true;
	while( !main_turn ) pthread_cond_wait(&main_cv, &mx);
	pthread_mutex_unlock(&mx);
	for( size_t i = 0; i < thr.size(); ++i ) pthread_join(thr[i]->pt, nullptr);
	if( owner != -1 ) violation("lock-not-restored", "lock still taken after all threads ended");
}
// ---- values
template<class T, class = void> struct Inst { static T *&alias() { static T *p = nullptr; return p; } static T *&plain() { static T *p = nullptr; return p; } };
template<class T> T *object()
{
	T *a = Inst<T>::alias(), *p = Inst<T>::plain();
	if( a && p && cur >= 0 ) return me().cur->next() % 2 ? a : p;
	if( a ) return a;
	if( p ) return p;
	if constexpr( std::is_default_constructible<T>::value && !std::is_abstract<T>::value ) { p = new T(); Inst<T>::plain() = p; return p; }
	else return nullptr;
}
struct no_object : std::runtime_error { no_object() : std::runtime_error("no instance") {} };
template<class A> struct Make { static A get() { if constexpr( std::is_class<A>::value && std::is_copy_constructible<A>::value && !std::is_default_constructible<A>::value ) { A *o = object<A>(); if( !o ) throw no_object(); return *o; } else return A(); } };
template<class T> struct Make<std::shared_ptr<T>> { static std::shared_ptr<T> get() { T *o = object<T>(); return std::shared_ptr<T>(o, [](T *) {}); } };
template<class A> struct Make<A &> { static A &get() { using T = std::remove_cv_t<A>; if constexpr( std::is_class<T>::value ) { T *o = object<T>(); if( !o ) throw no_object(); return *o; } else { static T t{}; return t; } } };
template<class A> struct Make<A &&> { static A &&get() { return std::move(Make<A &>::get()); } };
template<class A> struct Make<A *> { static A *get() { using T = std::remove_cv_t<A>; if constexpr( std::is_class<T>::value ) return object<T>(); else if constexpr( std::is_void<T>::value || std::is_function<T>::value ) return nullptr; else { static T t[4]{}; return t; } } };
template<> struct Make<void> { static void get() {} };
int harness_main(int argc, char **argv, void (*init)());
} // namespace simpy
