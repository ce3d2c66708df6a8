// Driver for short concurrent histories: random per-thread plans, a feeder that unblocks legitimately
// blocked operations, stuck detection, and the recorded history for a linearizability check.
#ifndef CONC_H
#define CONC_H
#include "rt.h"
#include "lin.h"
#include <atomic>
#include <algorithm>
namespace conc {
// Objects whose storage is never reused within a case, so identity is the address, even after deletion.
struct Tab { std::vector<std::atomic<int>> st; std::vector<std::atomic<int>> byDel; Tab(size_t n):st(n),byDel(n) { for (auto &x:st) x=0; for (auto &x:byDel) x=-1; } };
extern thread_local std::vector<int> tlDel;

struct COp { uint64_t inv=0, ret=~0ULL; int proc=0; int kind=0; long key=0, arg=0, res=-1; std::vector<int> del; };
struct Plan { int kind; long key, arg; };

// Sys must provide: long exec(const Plan&)  (performs the op, returns the result);
// bool blocking(const Plan&); bool enabled(const Plan&) (could the blocked op proceed now, judged by non mutating calls);
// Plan feed(const Plan &blocked) (an op that enables it); std::string text(const COp&).
template<class Sys> struct Driver {
	rt::Ctx &c; Sys &sys; std::atomic<uint64_t> clk; std::vector<COp> hist; bool stuck=false; std::string stuckText;
	Driver(rt::Ctx &cc, Sys &s) : c(cc), sys(s), clk(0) {}
	void one(std::vector<COp> &v, int proc, const Plan &p) {
		v.emplace_back(); COp &o=v.back(); o.kind=p.kind; o.key=p.key; o.arg=p.arg; o.proc=proc; tlDel.clear();
		o.inv=clk.fetch_add(1); long r=sys.exec(p); COp &o2=v.back(); o2.ret=clk.fetch_add(1); o2.res=r; o2.del=tlDel; tlDel.clear();
	}
	bool run(std::vector<std::vector<Plan>> &plan, unsigned level, unsigned spur) {
		int nt=plan.size(); std::vector<std::vector<COp>> rec(nt+1); for (auto &r:rec) r.reserve(300);
		std::vector<std::atomic<int>> cur(nt); for (auto &x:cur) x=-1;	// index into plan, -2 when done
		rt::perturbOn(c.rng.next(),level); rt::spuriousWakeups(spur);
		std::vector<rt::Worker> w(nt); std::vector<rt::Worker*> ws; volatile int bar=0;
		for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t](){ rt::perturbThread(t); rt::spinBarrier(&bar,nt);
			for (size_t i=0;i<plan[t].size();i++) { if (sys.blocking(plan[t][i])) cur[t]=i; one(rec[t],t,plan[t][i]); cur[t]=-1; } cur[t]=-2; }); }
		auto done=[&](){ for (auto &x:cur) if (x!=-2) return false; return true; };
		rt::perturbThread(nt); int idle=0, feeds=0;
		while (!done()) {
			usleep(100); if (++idle<8) continue; idle=0;
			bool fed=false, anyWaiting=false;
			for (int t=0;t<nt && !fed;t++) { int i=cur[t]; if (i<0) continue; anyWaiting=true;
				if (!sys.enabled(plan[t][i])) { if (cur[t]!=i) continue; if (feeds>25 && !(w[t].tid && rt::asleep(w[t].tid,0.1) && cur[t]==i && !sys.enabled(plan[t][i]))) continue; if (++feeds>100) { stuck=true; break; } one(rec[nt],nt,sys.feed(plan[t][i])); fed=true; } }
			if (stuck) break;
			if (!fed) {
				bool all=true; for (auto x:ws) if (!x->done && !rt::asleep(x->tid,0.01)) { all=false; break; }
				if (all && !done()) { usleep(1000); if (!rt::joinAll(ws,2.0)) {
					bool need=false; for (int t=0;t<nt;t++) { int i=cur[t]; if (i>=0 && !sys.enabled(plan[t][i])) need=true; }
					if (need && ++feeds<150) continue;
					stuck=true; break; } }
			}
			(void)anyWaiting;
		}
		if (stuck) { for (int t=0;t<nt;t++) { int i=cur[t]; if (i>=0) stuckText+=rt::fmt("thread %d in kind %d key %ld (enabled now: %d); ",t,plan[t][i].kind,plan[t][i].key,(int)sys.enabled(plan[t][i])); else stuckText+=rt::fmt("thread %d state %d; ",t,i); } return false; }
		rt::joinAll(ws); rt::perturbOff(); rt::spuriousWakeups(0);
		for (auto &r:rec) for (auto &o:r) hist.push_back(o);
		return true;
	}
	void append(int proc, const Plan &p, std::function<void()> f) { COp o; o.kind=p.kind;o.key=p.key;o.arg=p.arg;o.proc=proc; tlDel.clear(); o.inv=clk.fetch_add(1); f(); o.ret=clk.fetch_add(1); o.del=tlDel; tlDel.clear(); hist.push_back(o); }
	std::string text() { std::vector<COp> s=hist; std::sort(s.begin(),s.end(),[](const COp&a,const COp&b){return a.inv<b.inv;}); std::string t; for (auto &o:s) { t+=rt::fmt("[%llu-%llu p%d ",(unsigned long long)o.inv,(unsigned long long)o.ret,o.proc)+sys.text(o); for (int d:o.del) t+=rt::fmt(" del%d",d); t+="] "; } return t; }
	template<class Model> int judge(const Model &init, const std::string &key) {
		if (hist.size()>62) { c.count("too_long"); return -1; }
		LinChecker<Model,COp> lc(hist); Model fin=init; int r=lc.run(init,fin);
		if (r<0) c.count("lin_inconclusive"); else c.count("lin_histories");
		if (r==0) c.fail(key,"no sequential order explains this history: "+text());
		return r;
	}
};
}
#endif
