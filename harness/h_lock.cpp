// Mutex, ScopedLock, RWLock, Signal, ScopedLockMultiple, Thread, reference counted pointers.
#include "rt.h"
#include <atomic>
#include "Threads.h"
#include "Timeval.h"
#include "Utils.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
using namespace rt;

namespace {
// An actor executes one command at a time, so cross-thread scripts are deterministic.
struct Actor {
	Worker w; std::atomic<int> phase{0}; std::function<void()> job; std::atomic<bool> quit{false};
	void begin() { w.start([this](){ for (;;) { while (phase.load(std::memory_order_acquire)!=1) { if (quit) return; sched_yield(); } job(); phase.store(0,std::memory_order_release); } }); }
	void run(std::function<void()> f) { job=f; phase.store(1,std::memory_order_release); while (phase.load(std::memory_order_acquire)!=0) sched_yield(); }
	void post(std::function<void()> f) { job=f; phase.store(1,std::memory_order_release); }
	bool idle() { return phase.load(std::memory_order_acquire)==0; }
	~Actor() { quit=true; w.join(); }
};
const char *lockNames[]={"lock","trylock","timedlock","scoped","lock(file)","scoped(file)","trylock(file)"};
}

// Scripted: two to four threads, the model knows holder and depth at all times.
SCENARIO(mutex_script)
{
	int na=2+c.rng.below(3); Mutex m; std::vector<Actor> a(na); for (auto &x:a) x.begin();
	int holder=-1, depth=0; int n=c.rng.range(20,120); std::string trace; bool logfile=c.rng.chance(1,3);
	for (int i=0;i<n;i++) {
		int t=c.rng.below(na); bool mine=holder==t, can=holder<0||mine; int op=c.rng.below(8); bool got=false; long el=0; int cnt=-1; std::string mt;
		if (op>=6 || (mine && depth>=9)) { if (!mine) continue; a[t].run([&](){ m.unlock(); if (depth>1) cnt=m.lockcnt(); }); depth--; if (cnt>=0 && cnt!=depth) c.fail("lockcnt:unlock",fmt("count %d after unlock to depth %d; %s",cnt,depth,trace.c_str())); if (!depth) holder=-1; trace+=fmt("%d:unlock ",t); continue; }
		if ((op==0||op==4) && !can) op=1;
		if (op==2 && !can && !c.rng.chance(1,4)) op=1;
		int ms=c.rng.range(1,12); if (op==2 && can && c.rng.chance(1,3)) ms=c.rng.pick(std::vector<int>{0,60000,2000000000,86400000});
		a[t].run([&](){ int64_t t0=monoNs(); switch (op) { case 0: m.lock(); got=true; break; case 1: got=m.trylock(); break; case 2: got=m.timedlock(ms); break; case 3: got=m.trylock(logfile?__FILE__:NULL,__LINE__); break; case 4: m.lock(__FILE__,__LINE__); got=true; break; case 5: got=m.trylock(__FILE__,__LINE__); break; } el=(monoNs()-t0)/1000000; if (got) { cnt=m.lockcnt(); mt=m.mutext(); } });
		trace+=fmt("%d:%s%s ",t,op==2?fmt("timedlock(%d)",ms).c_str():op==1||op==3||op==5?"trylock":"lock",got?"+":"-");
		const char *nm=op==2?"timedlock":"trylock";
		if (got && !can) { c.fail(std::string("truth:granted:")+nm,fmt("thread %d was told it has the mutex held by %d; %s",t,holder,trace.c_str())); break; }
		if (!got && can && !(op==2&&ms==0)) { c.fail(std::string("truth:refused:")+nm,fmt("thread %d refused although the mutex is %s; %s",t,mine?"its own":"free",trace.c_str())); break; }
		if (!got && op==2 && el+3<ms) c.fail("timedlock:early",fmt("timedlock(%d) gave up after %ld ms",ms,el));
		if (op==2 && el>ms+15000LL) c.fail("timedlock:late",fmt("timedlock(%d) took %ld ms",ms,el));
		if (got) { holder=t; depth++; if (cnt!=depth) { c.fail("lockcnt:lock",fmt("count %d at depth %d; %s",cnt,depth,trace.c_str())); break; } if (mt.find(fmt("lockcnt=%d",depth))!=0) c.fail("lockcnt:text","description does not show the count: "+mt); }
	}
	if (holder>=0) { int h=holder; a[h].run([&](){ while (depth-->0) m.unlock(); }); }
	bool ok=false; int l=-1; a[0].run([&](){ ok=m.trylock(); if (ok) { l=m.lockcnt(); m.unlock(); } }); if (!ok||l!=1) c.fail("released",fmt("mutex not free with count 0 after balanced unlocks (%d,%d); %s",(int)ok,l,trace.c_str()));
	// ScopedLock releases on exception and on every exit
	a[1].run([&](){ try { ScopedLock s(m); if (c.rng.chance(1,2)) { ScopedLock s2(m,__FILE__,__LINE__); if (m.lockcnt()!=2) c.fail("scoped:cnt","nested scoped lock count"); throw 1; } else throw 2; } catch (int) {} });
	ok=false; a[0].run([&](){ ok=m.trylock(); if (ok) m.unlock(); }); if (!ok) c.fail("scoped:exception","scoped lock left by an exception is still held");
	c.count("steps",n); c.cover(trace); if (c.caseNo%200==1) c.sample(trace);
}

// Held for longer than the time after which a blocked lock is reported: the report changes nothing.
SCENARIO(mutex_long)
{
	Rng &r=c.rng; Mutex m; std::atomic<int> owner(-1), in(0), trace(0); long plain=0; int nw=r.range(1,3), holdMs=r.chance(1,3)?r.range(2050,r.chance(1,4)?6500:3800):r.range(1020,1500), depth=r.range(1,6); std::vector<std::string> viol(nw+1); std::vector<Worker> w(nw+1); std::vector<Worker*> ws; std::vector<int> how; for (int i=0;i<nw;i++) how.push_back(r.below(6)); bool multi=r.chance(1,4); Mutex m2,m3; uint64_t sd=r.next();
	auto enter=[&](int t, const char *by){ int e=-1; if (!owner.compare_exchange_strong(e,t)) viol[t]=fmt("acquired by %s while thread %d is inside",by,e); plain++; in++; };
	auto leave=[&]{ plain++; owner.store(-1); };
	w[nw].start([&]{ Rng q(sd); for (int i=0;i<depth;i++) if (q.chance(1,2)) m.lock(__FILE__,__LINE__); else m.lock(); enter(nw,"holder"); usleep(holdMs*1000); if (m.lockcnt()!=depth) viol[nw]=fmt("count %d while holding %d",m.lockcnt(),depth); leave(); for (int i=0;i<depth;i++) m.unlock(); });
	waitFor([&]{ return owner==nw; },5);
	for (int t=0;t<nw;t++) w[t].start([&,t]{ bool got=true; ScopedLock *sl=0; ScopedLockMultiple *sm=0; switch (how[t]) { case 0: case 1: m.lock(__FILE__,__LINE__); break; case 2: sl=new ScopedLock(m,__FILE__,__LINE__); break; case 3: m.lock(); break; case 4: got=m.timedlock(60000); break; default: if (multi) sm=new ScopedLockMultiple(0,m,m2,m3,__FILE__,__LINE__); else m.lock(__FILE__,__LINE__); } if (!got) { viol[t]="timed lock of a minute gave up"; return; } enter(t,"a waiter"); if (m.lockcnt()!=1) viol[t]=fmt("count %d after waiting, expected 1",m.lockcnt()); usleep(500); leave(); if (sl) delete sl; else if (sm) delete sm; else m.unlock(); });
	for (auto &x:w) ws.push_back(&x); if (!joinAll(ws,4.0+holdMs/1000.0)) { c.fail("stuck:mutex","threads asleep on a mutex nobody holds"); abandonProcess(); }
	for (auto &v:viol) if (!v.empty()) c.fail("excl:long",v); if (plain!=2*in||in!=nw+1) c.fail("excl:long-count",fmt("%ld updates, %d entries, expected %d",plain,(int)in,nw+1)); if (m.lockcnt()||m2.lockcnt()||m3.lockcnt()) c.fail("excl:count","mutex not free at the end"); if (!m.trylock()) c.fail("released","mutex not free after all released it"); else m.unlock();
	c.count("long_waits",nw); std::string h; for (int x:how) h+=fmt("%d",x); c.cover(h+fmt(" %d %d",depth,(int)multi));
}

// Contended: mutual exclusion under all ways of acquiring, including recursion and partial release.
SCENARIO(mutex_deep)
{
	// a mutex nested very deep, a read lock taken very often: free for others exactly after the last release
	setCaseLimit(60); static const int around[]={126,127,128,255,256,32766,32767,32768,65534,65535,65536,70000}; int n=c.rng.chance(2,3)?around[c.rng.below(12)]+c.rng.range(0,2):c.rng.range(1,2000); Mutex m; RWLock rw; Actor other; std::string d=fmt("nested %d deep: ",n); bool file=c.rng.chance(1,3); other.begin();
	auto probe=[&](bool want,int left) { bool g=false; other.run([&](){ g=m.trylock(); if (g) m.unlock(); }); if (g!=want) { c.fail(want?"deep:held":"deep:free",d+fmt("another thread %s the mutex with %d locks left",g?"gets":"does not get",left)); return false; } return true; };
	for (int i=0;i<n;i++) { bool got=true; switch (c.rng.below(file?4:3)) { case 0: m.lock(); break; case 1: got=m.trylock(); break; case 2: got=m.timedlock(1000); break; default: m.lock(__FILE__,__LINE__); } if (!got) { c.fail("deep:refused",d+fmt("the holder is refused at depth %d",i)); for (;i>0;i--) m.unlock(); return; } if ((i<4||(i&(i+1))==0||i>n-4)&&m.lockcnt()!=i+1) c.fail("deep:count",d+fmt("count %d at depth %d",m.lockcnt(),i+1)); }
	int left=n; bool ok=probe(false,left); while (left>1) { m.unlock(); left--; if ((left<3||(left&(left-1))==0||left==n-1)) { if (m.lockcnt()!=left) c.fail("deep:count",d+fmt("count %d with %d left",m.lockcnt(),left)); if (ok) ok=probe(false,left); } } m.unlock(); if (m.lockcnt()!=0) c.fail("deep:count",d+fmt("count %d after the last unlock",m.lockcnt())); if (ok) probe(true,0);
	int k=std::min(n,3000); for (int i=0;i<k;i++) if (c.rng.chance(1,2)) rw.rlock(); else if (!rw.tryrlock()) { c.fail("deep:reader",fmt("a reader is refused while %d are inside",i)); k=i; }
	bool w=true; auto tw=[&]() { other.run([&](){ w=rw.trywlock(); if (w) rw.unlock(); }); return w; }; if (k&&tw()) c.fail("deep:writer",fmt("a writer enters while %d readers are inside",k)); for (int i=0;i<k;i++) { if (i==k-1&&tw()) c.fail("deep:writer","a writer enters while a reader is inside"); rw.unlock(); } if (!tw()) c.fail("deep:writer-held","a writer is kept out after the last reader left");
	c.count("deep_locks",n); c.cover(fmt("%d",n));
}
SCENARIO(mutex_excl)
{
	setCaseLimit(60);
	int nt=2+c.rng.below(6), iters=c.rng.range(20,150); Mutex m; std::atomic<int> owner(-1); long plain=0; std::atomic<long> expect(0), bad(0), timeouts(0); int badCnt=0; std::string why; uint64_t ps=c.rng.next();
	perturbOn(c.rng.next(),c.rng.below(4)); std::vector<Worker> w(nt); std::vector<Worker*> ws; volatile int bar=0; std::vector<std::string> viol(nt);
	for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t](){ perturbThread(t); Rng r(ps+t); spinBarrier(&bar,nt);
		for (int i=0;i<iters;i++) {
			int how=r.below(7); bool got=true; ScopedLock *sl=0;
			switch (how) { case 0: m.lock(); break; case 1: got=m.trylock(); break; case 2: got=m.timedlock(r.range(0,3)); break; case 3: sl=new ScopedLock(m); break; case 4: m.lock(__FILE__,__LINE__); break; case 5: sl=new ScopedLock(m,__FILE__,__LINE__); break; case 6: got=m.trylock(__FILE__,__LINE__); break; }
			if (!got) { timeouts++; continue; }
			int e=-1; if (!owner.compare_exchange_strong(e,t)) viol[t]=fmt("acquired by %s while thread %d is inside",lockNames[how],e);
			plain++; expect++; if (m.lockcnt()!=1) viol[t]=fmt("count %d inside, expected 1",m.lockcnt());
			int extra=r.below(4); for (int k=0;k<extra;k++) { int h=r.below(3); if (h==0) m.lock(); else if (h==1) { if (!m.trylock()) viol[t]="recursive trylock refused"; } else if (!m.timedlock(1000)) viol[t]="recursive timedlock refused"; }
			if (m.lockcnt()!=1+extra) viol[t]=fmt("count %d at depth %d",m.lockcnt(),1+extra);
			if (r.chance(1,6)) usleep(r.below(200));
			for (int k=0;k<extra;k++) { m.unlock(); if (owner!=t) viol[t]="another thread got in after a partial release"; if (r.chance(1,4)) sched_yield(); }
			plain++; expect++; owner.store(-1); if (sl) delete sl; else m.unlock();
		} }); }
	if (!joinAll(ws,3.0)) { c.fail("stuck:mutex","threads asleep on a mutex nobody holds"); abandonProcess(); }
	perturbOff(); for (auto &v:viol) if (!v.empty()) c.fail("excl:mutex",v);
	if (plain!=expect) c.fail("excl:lostupdate",fmt("protected counter %ld, expected %ld",plain,(long)expect));
	if (m.lockcnt()!=0) c.fail("excl:count",fmt("count %d after all released",m.lockcnt()));
	c.count("acquisitions",expect/2); c.count("refusals",timeouts); c.count("sync_events",perturbEvents()); c.coverHash(perturbSignature()); (void)badCnt;
}

SCENARIO(rwlock_script)
{
	int na=2+c.rng.below(3); RWLock l; std::vector<Actor> a(na); for (auto &x:a) x.begin(); int writer=-1; std::vector<int> rd(na,0); int readers=0; int n=c.rng.range(20,100); std::string trace;
	for (int i=0;i<n;i++) {
		int t=c.rng.below(na), op=c.rng.below(6); bool got=false, canW=writer<0&&readers==0, canR=writer<0;
		if (op==5||op==4) { if (writer!=t && !rd[t]) continue; a[t].run([&](){ l.unlock(); }); if (writer==t) writer=-1; else { rd[t]--; readers--; } trace+=fmt("%d:u ",t); continue; }
		if (op==0 && !canW) op=1; if (op==2 && !canR) op=3; if ((op==2||op==3) && rd[t]>20) continue;
		a[t].run([&](){ switch (op) { case 0: l.wlock(); got=true; break; case 1: got=l.trywlock(); break; case 2: l.rlock(); got=true; break; case 3: got=l.tryrlock(); break; } });
		trace+=fmt("%d:%c%c ",t,op<2?'w':'r',got?'+':'-');
		bool can=op<2?canW:canR; if (got!=can) { c.fail(std::string("rw:")+(got?"granted:":"refused:")+(op<2?"w":"r"),trace); break; }
		if (got) { if (op<2) writer=t; else { rd[t]++; readers++; } }
	}
	if (writer>=0) a[writer].run([&](){ l.unlock(); }); for (int t=0;t<na;t++) a[t].run([&](){ while (rd[t]-->0) l.unlock(); });
	bool ok=false; a[0].run([&](){ ok=l.trywlock(); if (ok) l.unlock(); }); if (!ok) c.fail("rw:released","lock not free after balanced unlocks: "+trace);
	c.count("steps",n); c.cover(trace);
}
SCENARIO(rwlock_excl)
{
	int nt=2+c.rng.below(6), iters=c.rng.range(20,200); RWLock l; std::atomic<int> readers(0), writers(0); long v[2]={0,0}; std::atomic<long> wr(0), both(0); std::vector<std::string> viol(nt); uint64_t ps=c.rng.next();
	perturbOn(c.rng.next(),c.rng.below(4)); std::vector<Worker> w(nt); std::vector<Worker*> ws; volatile int bar=0;
	for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t](){ perturbThread(t); Rng r(ps+t); spinBarrier(&bar,nt); for (int i=0;i<iters;i++) {
		bool wmode=r.chance(1,3), tr=r.chance(1,3); if (wmode) { if (tr) { if (!l.trywlock()) continue; } else l.wlock(); if (writers.fetch_add(1)||readers) viol[t]="writer not alone"; v[0]++; if (r.chance(1,5)) sched_yield(); v[1]++; wr++; if (writers.fetch_sub(1)!=1||readers) viol[t]="writer not alone"; l.unlock(); }
		else { if (tr) { if (!l.tryrlock()) continue; } else l.rlock(); if (readers.fetch_add(1)) both++; if (writers) viol[t]="reader together with a writer"; if (v[0]!=v[1]) viol[t]="reader saw a half done write"; if (r.chance(1,5)) sched_yield(); readers.fetch_sub(1); l.unlock(); } } }); }
	if (!joinAll(ws,3.0)) { c.fail("stuck:rwlock","threads asleep on a free reader/writer lock"); abandonProcess(); }
	perturbOff(); for (auto &x:viol) if (!x.empty()) c.fail("excl:rw",x); if (v[0]!=wr) c.fail("excl:rw:lost","lost update"); c.count("shared_reads",both); c.count("writes",wr); c.coverHash(perturbSignature()^hash64(fmt("%d %d",nt,iters))^ps);
}

// Signals: waiting releases the mutex, wakes with it held, signal wakes at least one, broadcast all; timed waits end.
SCENARIO(signal_wake)
{
	setCaseLimit(40);
	Mutex m; Signal s; int nw=1+c.rng.below(5); bool timed=c.rng.chance(1,2); long longMs=c.rng.pick(std::vector<long>{60000,86400000,2160000000L,4000000000L}); bool bcast=c.rng.chance(1,2), outside=c.rng.chance(1,2); int depth=1;
	int waiting=0, tokens=0, woken=0; std::vector<std::string> viol(nw); perturbOn(c.rng.next(),c.rng.below(4)); bool useFile=c.rng.chance(1,3);
	std::vector<Worker> w(nw); std::vector<Worker*> ws; for (int t=0;t<nw;t++) { ws.push_back(&w[t]); w[t].start([&,t](){ perturbThread(t); if (useFile) m.lock(__FILE__,__LINE__); else m.lock(); waiting++; while (tokens==0) { if (timed) s.wait(m,longMs); else s.wait(m); if (m.lockcnt()!=1) viol[t]=fmt("count %d after waking",m.lockcnt()); } tokens--; woken++; m.unlock(); }); }
	// all waiters must let go of the mutex while they wait
	bool all=false; for (int k=0;k<40000 && !all;k++) { if (m.trylock()) { if (m.lockcnt()!=1) viol[0]=fmt("count %d right after acquiring a mutex whose other users wait on a signal",m.lockcnt()); all=waiting==nw; m.unlock(); } if (!all) usleep(100); }
	if (!all) { c.fail("signal:held","waiting threads do not release the mutex"); abandonProcess(); }
	(void)depth;
	if (bcast) { m.lock(); tokens+=nw; if (outside) { m.unlock(); s.broadcast(); } else { s.broadcast(); m.unlock(); } }
	else for (int i=0;i<nw;i++) { m.lock(); tokens++; if (outside) { m.unlock(); s.signal(); } else { s.signal(); m.unlock(); } if (c.rng.chance(1,3)) usleep(c.rng.below(300)); }
	if (!joinAll(ws,2.0)) { c.fail(std::string("lostwakeup:signal:")+(bcast?"broadcast":"signal"),fmt("%d of %d waiters woken",woken,nw)); abandonProcess(); }
	perturbOff(); for (auto &v:viol) if (!v.empty()) c.fail("signal:mutex",v); if (m.lockcnt()!=0) c.fail("signal:count","count not 0 at the end");
	c.count("wakeups",nw); c.coverHash(perturbSignature()^hash64(fmt("%d%d%d%d",nw,timed,bcast,outside)));
}
SCENARIO(signal_timeout)
{
	setCaseLimit(60); Mutex m; Signal s; long ms=c.rng.pick(std::vector<long>{0,-1,-1000000,1,2,5,(long)c.rng.range(1,150),(long)c.rng.range(1,150)}); std::atomic<int> phase(0); long el=0; int cnt=0; int k=0;
	Worker w; w.start([&](){ m.lock(); int64_t t0=monoNs(); s.wait(m,ms); el=(monoNs()-t0)/1000000; cnt=m.lockcnt(); m.unlock(); phase=1; });
	if (!waitFor([&](){return phase==1;},25)) { c.fail("timeout:never:signal",fmt("wait with timeout %ld ms never ended",ms)); abandonProcess(); }
	w.join(); if (cnt!=1) c.fail("signal:cnt",fmt("count %d after a timed wait",cnt)); if (el>std::max(0L,ms)+15000) c.fail("timeout:late",fmt("%ld",el));
	if (ms>0 && el+3<ms) { // spurious returns are allowed; repeated early returns are not
		int early=1; for (k=0;k<3;k++) { m.lock(); int64_t t0=monoNs(); s.wait(m,ms); if ((monoNs()-t0)/1000000+3<ms) early++; m.unlock(); } if (early==4) c.fail("timeout:early:signal",fmt("timed wait of %ld ms returns after %ld ms every time",ms,el)); }
	bool ok=m.trylock(); if (!ok) c.fail("signal:held","mutex still held"); else m.unlock(); c.count("timeouts"); c.cover(fmt("%ld",ms));
}

// ------------------------------------------------------------------ ScopedLockMultiple
SCENARIO(multi_script)
{
	// scripted: which mutexes are held by the constructing thread after construction and after destruction
	std::vector<Mutex> m(3); Actor a,b; a.begin(); b.begin(); bool two=c.rng.chance(1,2), file=c.rng.chance(1,2); int nm=two?2:3; int own=c.rng.below(1<<nm); std::vector<int> ord{0,1,2}; for (int i=2;i>0;i--) std::swap(ord[i],ord[c.rng.below(i+1)]);
	ScopedLockMultiple *s=0; std::atomic<bool> built(false);
	auto free3=[&](const char *when,std::function<bool(int)> heldWant){ for (int i=0;i<3;i++) { bool got=false; b.run([&](){ got=m[i].trylock(); if (got) m[i].unlock(); }); bool held=!got; int pos=-1; for (int k=0;k<nm;k++) if (ord[k]==i) pos=k; bool want=pos>=0&&heldWant(pos); if (held!=want) c.fail(fmt("multi:%s:%s",when,held?"held":"free"),fmt("mutex at position %d of %d, owner bits %d: held=%d expected %d",pos,nm,own,(int)held,(int)want)); } };
	a.run([&](){ for (int k=0;k<nm;k++) if (own>>k&1) m[ord[k]].lock(); });
	// optionally someone else holds one of the not owned ones for a while
	int blk=-1; if (c.rng.chance(1,2)) { int k=c.rng.below(nm); if (!(own>>k&1)) blk=k; } if (blk>=0) b.run([&](){ m[ord[blk]].lock(); });
	a.post([&](){ Mutex &x=m[ord[0]],&y=m[ord[1]],&z=m[ord[2]]; if (two) s=file?new ScopedLockMultiple(own,x,y,__FILE__,__LINE__):new ScopedLockMultiple(own,x,y); else s=file?new ScopedLockMultiple(own,x,y,z,__FILE__,__LINE__):new ScopedLockMultiple(own,x,y,z); built=true; });
	if (blk>=0) { usleep(c.rng.below(2000)); if (built) c.fail("multi:early","constructed although another thread holds one of the mutexes"); b.run([&](){ m[ord[blk]].unlock(); }); }
	if (!waitFor([&](){return a.idle();},20)) { c.fail("multi:stuck","constructor does not return although all mutexes are free"); abandonProcess(); }
	free3("after",[&](int){return true;});
	a.run([&](){ for (int k=0;k<nm;k++) if (m[ord[k]].lockcnt()!=1) c.fail("multi:count",fmt("count %d inside",m[ord[k]].lockcnt())); delete s; });
	free3("end",[&](int k){return (own>>k&1)!=0;});
	a.run([&](){ for (int k=0;k<nm;k++) if (own>>k&1) m[ord[k]].unlock(); }); free3("final",[&](int){return false;});
	c.count("constructions"); c.cover(fmt("%d %d %d %d %d%d%d",two,file,own,blk,ord[0],ord[1],ord[2]));
}
SCENARIO(multi_stress)
{
	setCaseLimit(60);
	int nm=3+c.rng.below(4), nt=2+c.rng.below(4), iters=c.rng.range(10,60); std::vector<Mutex> m(nm); std::vector<std::atomic<int>> owner(nm); for (auto &x:owner) x=-1; std::vector<long> plain(nm,0); std::vector<std::atomic<long>> expect(nm); for (auto &x:expect) x=0; std::vector<std::string> viol(nt); uint64_t ps=c.rng.next(); int ownMode=c.rng.below(3); std::atomic<long> done(0);
	perturbOn(c.rng.next(),1+c.rng.below(3)); std::vector<Worker> w(nt); std::vector<Worker*> ws; volatile int bar=0;
	for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t](){ perturbThread(t); Rng r(ps+t); spinBarrier(&bar,nt);
		for (int i=0;i<iters;i++) {
			int k=2+r.below(2); std::vector<int> ix; while ((int)ix.size()<k) { int x=r.below(nm); bool dup=false; for (int y:ix) dup|=x==y; if (!dup) ix.push_back(x); }
			int own=0; if (ownMode==1) { if (r.chance(1,2)) own=1<<r.below(k); } else if (ownMode==2) own=r.below(1<<k);
			std::vector<int> o; for (int j=0;j<k;j++) if (own>>j&1) o.push_back(ix[j]); std::sort(o.begin(),o.end()); for (int x:o) m[x].lock();
			if (r.chance(1,4)) sched_yield();
			{ ScopedLockMultiple *s = k==2 ? new ScopedLockMultiple(own,m[ix[0]],m[ix[1]]) : new ScopedLockMultiple(own,m[ix[0]],m[ix[1]],m[ix[2]]);
			  for (int x:ix) { int e=-1; if (!owner[x].compare_exchange_strong(e,t)) viol[t]=fmt("thread %d inside although thread %d holds mutex %d",t,e,x); plain[x]++; expect[x]++; if (m[x].lockcnt()!=1) viol[t]=fmt("count %d inside",m[x].lockcnt()); }
			  if (r.chance(1,4)) usleep(r.below(150)); else if (r.chance(1,2)) sched_yield();
			  for (int j=0;j<k;j++) if (!(own>>j&1)) owner[ix[j]]=-1;
			  delete s; }
			for (int x:o) { if (owner[x]!=t) viol[t]="a mutex owned before was not held afterwards"; plain[x]++; expect[x]++; if (m[x].lockcnt()!=1) viol[t]=fmt("count %d of an owned mutex afterwards",m[x].lockcnt()); owner[x]=-1; m[x].unlock(); }
			done++;
		} }); }
	if (!joinAll(ws,2.5)) { std::string st; for (int i=0;i<nm;i++) st+=fmt("m%d count %d; ",i,m[i].lockcnt()); c.fail(fmt("multi:deadlock:own%d",ownMode),"threads deadlocked acquiring several mutexes: "+st); abandonProcess(); }
	perturbOff(); for (auto &v:viol) if (!v.empty()) c.fail("multi:excl",v); for (int i=0;i<nm;i++) { if (plain[i]!=expect[i]) c.fail("multi:lost","protected counter lost an update"); if (!m[i].trylock()||m[i].lockcnt()!=1) c.fail("multi:left",fmt("mutex %d left held or miscounted",i)); else m[i].unlock(); }
	c.count("constructions",done); c.count("sync_events",perturbEvents()); c.coverHash(perturbSignature()^ps);
}

// ------------------------------------------------------------------ Thread
namespace { struct Task { std::atomic<int> runs{0}; int plain=0; int delay; void *seenArg=0; size_t stack=0; pthread_t self; std::atomic<bool> fin{false}; bool measure=false; };
void *taskMain(void *p) { Task *t=(Task*)p; t->runs++; t->seenArg=p; t->self=pthread_self(); if (t->measure) { pthread_attr_t a; pthread_getattr_np(pthread_self(),&a); pthread_attr_getstacksize(&a,&t->stack); pthread_attr_destroy(&a); } if (t->delay) usleep(t->delay); t->plain++; t->fin=true; return p; } }
SCENARIO(thread_life)
{
	setCaseLimit(60); int nt=1+c.rng.below(4), per=1+c.rng.below(8); std::vector<std::string> viol(nt); uint64_t ps=c.rng.next(); std::vector<Worker> w(nt); std::vector<Worker*> ws; volatile int bar=0; perturbOn(c.rng.next(),c.rng.below(4));
	for (int k=0;k<nt;k++) { ws.push_back(&w[k]); w[k].start([&,k](){ perturbThread(k); Rng r(ps+k); spinBarrier(&bar,nt); std::vector<Thread*> th; bool slow=r.chance(1,60); std::vector<Task> ta(per);
		int kinds=r.below(3); size_t ss=65536u<<r.below(6);
		for (int i=0;i<per;i++) { ta[i].delay=r.chance(1,2)?r.below(1500):0; ta[i].measure=true; th.push_back(kinds==1?new Thread(ss):new Thread); }
		for (int rep=0;rep<1+(int)r.below(3);rep++) {
			for (int i=0;i<per;i++) { ta[i].fin=false; if (slow && i==per-1) { ta[i].delay=rep?0:2300000; } if (kinds==2) th[i]->start2(taskMain,&ta[i],ss); else if (r.chance(1,2)) th[i]->start(taskMain,&ta[i]); else { START_THREAD((*th[i]),taskMain,&ta[i]); } }
			for (int i=0;i<per;i++) { th[i]->join(); if (!ta[i].fin) viol[k]="join returned before the task finished"; if (ta[i].runs!=rep+1) viol[k]=fmt("task ran %d times, started %d times",(int)ta[i].runs,rep+1); if (ta[i].plain!=rep+1) viol[k]="effects of the task not visible after join"; if (ta[i].seenArg!=&ta[i]) viol[k]="task got another argument"; if (kinds && ta[i].stack+4096<ss) viol[k]=fmt("stack of %zu bytes, asked for %zu",ta[i].stack,ss); if (!kinds && ta[i].stack<65536*4) viol[k]=fmt("default stack only %zu",ta[i].stack); }
		}
		for (auto t:th) delete t; { Thread unused; Thread unused2(100000); } }); }
	if (!joinAll(ws,8.0)) { c.fail("thread:stuck","start or join does not return"); abandonProcess(); }
	perturbOff(); for (auto &v:viol) if (!v.empty()) c.fail("thread",v); c.count("threads",nt*per); c.coverHash(perturbSignature()^ps);
}

// ------------------------------------------------------------------ reference counts
namespace { std::vector<std::atomic<int>> *gDel; struct Obj; RefCntPointer<Obj> *gDying=NULL; int gDyingId=-1, gDyingHow=0; struct Obj : RefCntBase { int id; std::string payload; volatile long canary; RefCntPointer<Obj> next; Obj(int i):id(i),payload(50,'p'),canary(0x5151) {} ~Obj() { (*gDel)[id]++; if (id==gDyingId && gDying) { RefCntPointer<Obj> *q=gDying; gDying=NULL; if (gDyingHow) *q=(Obj*)NULL; else q->free(); } canary=0; } int sum() { return payload.size()+(canary==0x5151); } }; typedef RefCntPointer<Obj> P; }
SCENARIO(refcnt_seq)
{
	std::vector<std::atomic<int>> del(4000); for (auto &x:del) x=0; gDel=&del; int np=2+c.rng.below(8); std::vector<P*> p; for (int i=0;i<np;i++) p.push_back(new P); std::vector<int> at(np,-1); std::vector<Obj*> obj; std::map<int,int> cnt; std::map<int,int> link; auto drop=[&](int k){ while (k>=0 && --cnt[k]==0) { int nx=link.count(k)?link[k]:-1; link.erase(k); k=nx; } }; int n=c.rng.range(30,300); std::string trace;
	for (int i=0;i<n && obj.size()<3900;i++) {
		int a=c.rng.below(np), b=c.rng.below(np); int was=at[a]; int now=was; int op=c.rng.below(18);
		switch (op) {
		case 0: case 1: { Obj *o=new Obj(obj.size()); obj.push_back(o); *p[a]=o; now=o->id; break; }
		case 2: *p[a]=*p[b]; now=at[b]; break;
		case 3: *p[a]=(Obj*)NULL; now=-1; break;
		case 4: p[a]->free(); now=-1; break;
		case 5: { P tmp(*p[b]); if (at[b]>=0 && tmp->getRefCnt()!=cnt[at[b]]+1) c.fail("refcnt:copy",fmt("count %d with %d pointers",tmp->getRefCnt(),cnt[at[b]]+1)); const P &ct=tmp; P tmp2(ct); *p[a]=tmp2; now=at[b]; break; }
		case 6: *p[a]=p[a]->self(); break;
		case 7: delete p[a]; p[a]=new P; now=-1; break;
		case 8: if (at[b]>=0) { *p[a]=obj[at[b]]; now=at[b]; } break;
		case 9: { P*np2=new P((const P&)*p[b]); delete p[a==b?a:a]; if (a==b) { now=at[b]; } else now=at[b]; p[a]=np2; break; }
		case 10: { Obj *o=new Obj(obj.size()); obj.push_back(o); P fresh(o); *p[a]=fresh; now=o->id; break; }
		// objects which refer to later objects: chains released from their head
		case 11: case 12: if (at[a]>=0 && at[b]>at[a]) { int was2=link.count(at[a])?link[at[a]]:-1; if (c.rng.chance(1,2)) obj[at[a]]->next=*p[b]; else obj[at[a]]->next=p[b]->self(); cnt[at[b]]++; link[at[a]]=at[b]; drop(was2); } break;
		case 13: if (at[b]>=0) { now=link.count(at[b])?link[at[b]]:-1; if (now>=0 || c.rng.chance(1,3)) *p[a]=(*p[b])->next; else now=was; } break;		// through the object, possibly the one released by this very assignment
		case 14: case 15: if (at[b]>=0) { int q=c.rng.chance(1,2)?b:at[a]>=0?a:b; now=link.count(at[q])?link[at[q]]:-1; if (now>=0 || c.rng.chance(1,3)) *p[a]=(*p[q])->next.self(); else now=was; } break;
		case 16: if (at[b]>=0 && link.count(at[b])) { int was2=link[at[b]]; if (c.rng.chance(1,2)) obj[at[b]]->next.free(); else obj[at[b]]->next=(Obj*)NULL; link.erase(at[b]); drop(was2); } break;
		}
		// the destructor of the object released uses the very pointer which is releasing it
		if (op==17 && a!=b && at[a]>=0 && cnt[at[a]]==1 && (at[b]<0||at[b]!=at[a])) { gDying=p[a]; gDyingId=at[a]; gDyingHow=c.rng.below(2); switch (c.rng.below(4)) { case 0: p[a]->free(); break; case 1: *p[a]=(Obj*)NULL; break; case 2: *p[a]=*p[b]; break; default: *p[a]=p[b]->self(); break; } if (gDying) { c.fail("refcnt:leak","object alive although its last pointer is gone: "+trace); return; } now=p[a]->isNULL()?-1:at[b]; }
		if (now>=0) cnt[now]++; drop(was); at[a]=now;
		trace+=fmt("%d(%d,%d) ",op,a,b);
		for (size_t k=0;k<obj.size();k++) { bool live=cnt.count(k)&&cnt[k]>0; if (del[k]>1) { c.fail("refcnt:twice",trace); return; } if (live && del[k]) { c.fail("refcnt:early","object deleted while a pointer refers to it: "+trace); return; } if (!live && cnt.count(k) && !del[k]) { c.fail("refcnt:leak","object alive although its last pointer is gone: "+trace); return; } if (live && (obj[k]->getRefCnt()!=cnt[k])) { c.fail("refcnt:value",fmt("count %d, pointers %d: ",obj[k]->getRefCnt(),cnt[k])+trace); return; } }
		for (int k=0;k<np;k++) { if (p[k]->isNULL()!=(at[k]<0)||p[k]->self()!=(at[k]<0?NULL:obj[at[k]])) { c.fail("refcnt:target","pointer refers to the wrong object: "+trace); return; } if (at[k]>=0 && ((**p[k]).id!=at[k]||(*p[k])->sum()!=51)) c.fail("refcnt:data","object damaged"); if (at[k]>=0) { int nx=link.count(at[k])?link[at[k]]:-1; if ((*p[k])->next.self()!=(nx<0?NULL:obj[nx])) { c.fail("refcnt:target","pointer inside an object refers to the wrong object: "+trace); return; } } if ((*p[k]==*p[0])!=(at[k]==at[0]) || (*p[k]!=*p[0])==(at[k]==at[0])) c.fail("refcnt:compare","comparison wrong"); { const Obj *raw=at[0]<0?NULL:obj[at[0]]; if ((*p[k]==raw)!=(at[k]==at[0]) || (*p[k]!=raw)==(at[k]==at[0])) c.fail("refcnt:compare-raw","comparison with an object's address wrong"); } }
	}
	for (auto x:p) delete x; for (size_t k=0;k<obj.size();k++) if (cnt.count(k) && del[k]!=1) c.fail("refcnt:end",fmt("object deleted %d times at the end",(int)del[k]));
	c.count("ops",n); c.cover(trace); if (c.caseNo%300==1) c.sample(trace);
}
SCENARIO(refcnt_many)
{
	// very many pointers to one object: the count is exact and the object goes with the last of them
	static const int around[]={126,127,128,255,256,32766,32767,32768,40000,65534,65535,65536,70000}; int n=c.rng.chance(1,2)?around[c.rng.below(13)]+c.rng.range(0,2):c.rng.range(1,3000);
	std::vector<std::atomic<int>> del(1); for (auto &x:del) x=0; gDel=&del; std::vector<RefCntPointer<Obj>> p(n); Obj *o=new Obj(0); std::string d=fmt("with %d pointers to one object: ",n);
	for (int i=0;i<n;i++) { if (c.rng.chance(1,2)||!i) p[i]=o; else p[i]=p[i-1]; if ((i<4||(i&(i+1))==0||i>n-4) && o->getRefCnt()!=i+1) { c.fail("refcnt:count",d+fmt("count %d after %d",o->getRefCnt(),i+1)); return; } if (del[0]) { c.fail("refcnt:early",d+"object deleted"); return; } }
	int left=n; bool up=c.rng.chance(1,2); for (int k=0;k<n;k++) { int i=up?k:n-1-k; if (c.rng.chance(1,2)) p[i].free(); else p[i]=(Obj*)NULL; left--; if (left && (left<4||(left&(left-1))==0||k<4) && !del[0] && o->getRefCnt()!=left) { c.fail("refcnt:count",d+fmt("count %d with %d left",o->getRefCnt(),left)); return; } if (left && del[0]) { c.fail("refcnt:early",d+fmt("object deleted with %d left",left)); return; } }
	if (del[0]!=1) c.fail(del[0]?"refcnt:twice":"refcnt:leak",d+fmt("object deleted %d times",(int)del[0])); c.count("pointers_to_one",n); c.cover(fmt("%d %d",n,up));
}
SCENARIO(refcnt_conc)
{
	// every thread owns its pointers; objects are shared, handed over through a mutex protected mailbox
	int nt=2+c.rng.below(5), no=1+c.rng.below(6), iters=c.rng.range(20,200); std::vector<std::atomic<int>> del(no); for (auto &x:del) x=0; gDel=&del; std::vector<std::string> viol(nt); uint64_t ps=c.rng.next();
	std::vector<std::vector<P>> own(nt,std::vector<P>(no)); { std::vector<P> base; for (int i=0;i<no;i++) base.push_back(P(new Obj(i))); for (int t=0;t<nt;t++) for (int i=0;i<no;i++) own[t][i]=base[i]; }
	pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; P box; perturbOn(c.rng.next(),c.rng.below(4)); std::vector<Worker> w(nt); std::vector<Worker*> ws; volatile int bar=0;
	for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t](){ perturbThread(t); Rng r(ps+t); std::vector<P> loc(4); spinBarrier(&bar,nt);
		for (int i=0;i<iters;i++) { int k=r.below(no), l=r.below(4); switch (r.below(8)) {
			case 0: loc[l]=own[t][k]; break; case 1: { P tmp(own[t][k]); loc[l]=tmp; break; } case 2: loc[l].free(); break; case 3: loc[l]=(Obj*)0; break;
			case 4: pthread_mutex_lock(&mu); box=loc[l]; pthread_mutex_unlock(&mu); break; case 5: pthread_mutex_lock(&mu); loc[l]=box; pthread_mutex_unlock(&mu); break;
			case 6: if (i>iters/2) own[t][k].free(); break; case 7: loc[l]=loc[r.below(4)]; break; }
			if (!loc[l].isNULL()) { if (del[loc[l]->id] || loc[l]->sum()!=51) viol[t]="object deleted while a pointer refers to it"; if (loc[l]->getRefCnt()<1) viol[t]="count below one with a live pointer"; } if (r.chance(1,8)) sched_yield(); }
		for (auto &x:loc) x.free(); for (auto &x:own[t]) x=(Obj*)0; }); }
	if (!joinAll(ws,3.0)) { c.fail("stuck:refcnt","threads stuck"); abandonProcess(); }
	box.free(); perturbOff(); for (auto &v:viol) if (!v.empty()) c.fail("refcnt:early",v); for (int i=0;i<no;i++) if (del[i]!=1) c.fail(del[i]?"refcnt:twice":"refcnt:leak",fmt("object deleted %d times after all pointers are gone",(int)del[i]));
	c.count("ops",nt*iters); c.coverHash(perturbSignature()^ps);
}

// ---- console output macros: both streams end on one terminal, every message is a line of its own
struct Terminal : std::streambuf {
	std::vector<char> b; size_t n=0; unsigned y=0; bool slow=false; size_t flushed=0; int sync() { flushed=n; return 0; } Terminal() : b(1<<20) {}
	void one(char ch) { size_t i=n; if (slow && (y=y*1103515245u+12345u,(y>>16)%16==0)) sched_yield(); if (i<b.size()) b[i]=ch; n=i+1; }
	int overflow(int ch) { if (ch!=EOF) one((char)ch); return ch; }
	std::streamsize xsputn(const char *s, std::streamsize k) { for (std::streamsize i=0;i<k;i++) one(s[i]); return k; }
};
SCENARIO(console)
{
	static Terminal T; Rng &r=c.rng; T.n=0; T.flushed=0; T.slow=r.chance(2,3); int nt=r.range(1,4), per=r.range(5,60); int use=r.below(3);	// both streams, cout only, cerr only
	std::streambuf *so=std::cout.rdbuf(&T), *se=std::cerr.rdbuf(&T); std::vector<std::vector<std::string>> want(nt); std::vector<unsigned long> self(nt); uint64_t salt=r.next(); double t0=realUs()/1e6;
	perturbOn(r.next(),r.below(4)); std::vector<Worker> w(nt); std::vector<Worker*> ws; volatile int bar=0;
	for (int k=0;k<nt;k++) { ws.push_back(&w[k]); w[k].start([&,k]{ perturbThread(k); self[k]=(unsigned long)pthread_self(); Rng q(salt+k); spinBarrier(&bar,nt); for (int i=0;i<per;i++) {
		std::string x(q.below(40),(char)('a'+k)); unsigned v=q.below(100000); int kind=q.below(3); bool err=use==0?q.chance(1,2):use==2; std::string s=fmt("m%d.%d ",k,i)+x;
		if (kind==0) { s+=fmt(" %u;",v); if (err) CERR("m" << k << "." << i << " " << x << " " << v << ";") else COUT("m" << k << "." << i << " " << x << " " << v << ";") }
		else if (kind==1) { s+=fmt(" %x;",v); if (err) CERR("m" << k << "." << i << " " << x << " " << std::hex << v << ";") else COUT("m" << k << "." << i << " " << x << " " << std::hex << v << ";") }
		else { s+=";"; if (err) CERR(s) else COUT(s) }
		if (nt==1&&T.flushed!=T.n) c.fail("console:flush","a message is not flushed when the macro ends");
		want[k].push_back((err?"E":"O")+s); } }); }
	bool ok=joinAll(ws); perturbOff(); double t1=realUs()/1e6; std::cout.rdbuf(so); std::cerr.rdbuf(se);
	if (!ok) { c.fail("console:stuck","threads writing messages do not finish"); abandonProcess(); }
	std::string all(T.b.data(),std::min(T.n,T.b.size())); std::vector<size_t> next(nt,0); size_t pos=0; int lines=0;
	while (pos<all.size()) { size_t e=all.find('\n',pos); if (e==std::string::npos) { c.fail("console:unended","output ends in the middle of a message: "+quote(all.substr(pos))); break; } std::string l=all.substr(pos,e-pos); pos=e+1; lines++;
		double tm=0; unsigned long th=0; int at=0; if (sscanf(l.c_str(),"%lf %lu: %n",&tm,&th,&at)<2||at==0) { c.fail("console:head","a line does not begin with time and thread: "+quote(l)); break; }
		std::string rest=l.substr(at); int k=-1; for (int j=0;j<nt;j++) if (self[j]==th) k=j; if (k<0) { c.fail("console:thread","unknown thread in "+quote(l)); break; }
		if (next[k]>=want[k].size()) { c.fail("console:extra","more lines than messages: "+quote(l)); break; } std::string m=want[k][next[k]++]; bool err=m[0]=='E'; m=m.substr(1);
		if (err) { size_t q=rest.find(".cpp:"); size_t d=q==std::string::npos?q:rest.find(": ",q+5); rest=d==std::string::npos?rest:rest.substr(d+2); }
		if (rest!=m) { c.fail("console:mixed","message "+quote(m)+" came out as "+quote(l)); break; }
		if (tm<t0-1||tm>t1+1) { c.fail("console:time",fmt("time of the line %f is not between %f and %f",tm,t0,t1)); break; } }
	if (lines<nt*per) c.fail("console:lost",fmt("%d lines for %d messages",lines,nt*per)); c.count("console_lines",lines); c.coverHash(perturbSignature()); c.cover(fmt("%d %d %d",nt,per,use)); if (c.caseNo<1) c.sample(all.substr(0,300));
}
