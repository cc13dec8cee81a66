// driver: reads a scenario, runs its schedules, reports
#pragma once
#include "simpy.hpp"
#include "simhook.hpp"
#include <fstream>
#include <iostream>
namespace simh {
void body(char const *n) { if( simpy::cur >= 0 ) simpy::body(n); }
Guard::Guard() { auto &f = simpy::me().frames; at = f.size(); f += 'G'; simpy::yield(); }
Guard::~Guard() { auto &f = simpy::me().frames; if( f.size() > at ) f.erase(at, 1); simpy::yield(); }
} // namespace simh
namespace simpy {
inline int harness_main(int argc, char **argv, void (*init)())
{
	init();
	if( argc > 1 && string(argv[1]) == "--list" ) { for( auto &b : bound ) printf("B\t%s\n", b.name.c_str()); for( auto &v : virts ) printf("V\t%s\t%d\n", v.name.c_str(), v.has() ? 1 : 0); return 0; }
	std::ifstream in(argv[1]); string line; struct T { bool py; vector<Op> ops; }; vector<T> ts; unsigned long seed = 1; int n = 1;
	while( std::getline(in, line) ) {
		std::istringstream s(line); string k; s >> k;
		if( k == "guard" ) s >> guard;
		else if( k == "fallbackwait" ) s >> fallback_wait;
		else if( k == "thread" ) { string x; s >> x; ts.push_back({x == "py", {}}); }
		else if( k == "op" ) { Op o; s >> o.kind >> o.idx; int c; while( s >> c ) o.ch.push_back(c); ts.back().ops.push_back(o); }
		else if( k == "sched" ) s >> seed >> sched_p >> n;
		else if( k == "preempt" ) { long d; int t; use_preempt = true; if( s >> d >> t ) preempt[d] = t; }
	}
	std::set<unsigned long> hs; unsigned long all = 1; long nsteps = 0, ndec = 0, npre = 0;
	for( int i = 0; i < n; ++i ) {
		rng_state = seed + (unsigned long)i * 7919; vector<std::unique_ptr<Thr>> v;
		for( auto &t : ts ) { auto p = std::make_unique<Thr>(); p->id = (int)v.size(); p->python = t.py; p->ops = t.ops; v.push_back(std::move(p)); }
		run_schedule(std::move(v)); hs.insert(hash_); all = all * 31 + hash_; nsteps += steps; ndec += decision; npre += (long)taken.size();
	}
	printf("OK\t%d\t%zu\t%lx\t%ld\t%ld\t%ld\n", n, hs.size(), all, nsteps, ndec, npre);
	for( auto &s : seen ) printf("SEEN\t%s\t%ld\n", s.first.c_str(), s.second);
	fflush(stdout); _Exit(0);
}
} // namespace simpy
