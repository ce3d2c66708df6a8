// Interthread queues: linearizability, exactly-once delivery, FIFO order, ownership, wakeups.
#include "rt.h"
#include "Interthread.h"
#include "Configuration.h"
#include "lin.h"
#include <atomic>
#include <memory>
ConfigurationTable gConfig;
using namespace rt;

namespace {
struct Tab { std::vector<std::atomic<int>> st; Tab(size_t n):st(n) { for (auto &x:st) x=0; } };	// 0 none 1 alive, 2 deleted, >2 double
thread_local std::vector<int> tlDel;
struct Item : public SingleLinkListNode {
	int id; Tab *tab;
	Item(int i, Tab *t) : id(i), tab(t) { tab->st[id]=1; }
	~Item() { tab->st[id]++; tlDel.push_back(id); }
	unsigned size() { return 1+id%7; }
	Item *next() { return (Item*)mNext; }
	void setNext(Item *i) { mNext=i; }
};

struct QIf {
	virtual ~QIf() {}
	virtual void write(Item*)=0; virtual Item *read()=0; virtual Item *readMs(unsigned)=0; virtual Item *readNoBlock()=0;
	virtual size_t size()=0; virtual void clear()=0;
	virtual void writeFront(Item*) {} virtual Item *front() { return 0; } virtual void flush() {} virtual void waitLow(size_t) {}
	virtual size_t total() { return 0; }
	virtual bool hasFront() { return true; } virtual bool hasWait() { return false; } virtual bool hasTotal() { return false; }
	virtual const char *name()=0;
};
template<class Q> struct QPlain : QIf {
	Q q; const char *n; bool tot; QPlain(const char *nm,bool t):n(nm),tot(t){}
	void write(Item*i){q.write(i);} Item*read(){return q.read();} Item*readMs(unsigned t){return q.read(t);} Item*readNoBlock(){return q.readNoBlock();}
	size_t size(){return q.size();} void clear(){q.clear();} void writeFront(Item*i){q.write_front(i);} Item*front(){return q.front();} void flush(){q.flushNoDelete();}
	bool hasTotal(){return tot;}
	const char*name(){return n;}
};
struct QSll : QPlain<InterthreadQueue<Item,SingleLinkList<Item> > > { QSll():QPlain("slist",true){} size_t total(){return q.totalSize();} };
struct QWait : QIf {
	InterthreadQueueWithWait<Item> q;
	void write(Item*i){q.write(i);} Item*read(){return q.read();} Item*readMs(unsigned t){return q.read(t);} Item*readNoBlock(){return q.readNoBlock();}
	size_t size(){return q.size();} void clear(){q.clear();} void waitLow(size_t n){q.wait(n);}
	bool hasFront(){return false;} bool hasWait(){return true;} const char*name(){return "withwait";}
};
QIf *makeQ(int k) {
	switch (k%3) { case 0: return new QPlain<InterthreadQueue<Item> >("ptrlist",false); case 1: return new QSll(); default: return new QWait(); }
}

enum Kind { WRITE, WFRONT, READ, READMS, READNB, FRONT, SIZE, CLEAR, FLUSH, WAITLOW, TOTAL, DESTROY };
const char *kindName[] = {"write","write_front","read","read_ms","readNoBlock","front","size","clear","flush","wait","totalSize","destroy"};
struct Op { uint64_t inv, ret; int proc; Kind k; long arg; long res; std::vector<int> del; };
struct Model {
	std::deque<int> q;
	std::string key() const { std::string s; for (int i:q) { s+=(char)(i); s+=(char)(i>>8);} return s; }
	bool step(const Op &o) {
		switch (o.k) {
		case WRITE: q.push_back(o.arg); return o.del.empty();
		case WFRONT: q.push_front(o.arg); return o.del.empty();
		case READ: case READMS: case READNB:
			if (!o.del.empty()) return false;
			if (o.res<0) return o.k!=READ && q.empty();
			if (q.empty()||q.front()!=o.res) return false;
			q.pop_front(); return true;
		case FRONT: return o.res<0 ? q.empty() : (!q.empty() && q.front()==o.res);
		case SIZE: return o.res==(long)q.size();
		case TOTAL: { long t=0; for (int i:q) t+=1+i%7; return t==o.res; }
		case CLEAR: case DESTROY: { std::multiset<int> a(q.begin(),q.end()), b(o.del.begin(),o.del.end()); if (a!=b) return false; q.clear(); return true; }
		case FLUSH: if (!o.del.empty()) return false; q.clear(); return true;
		case WAITLOW: return (long)q.size()<=o.arg;
		}
		return false;
	}
};
std::string histText(const std::vector<Op> &h) {
	std::vector<Op> s=h; std::sort(s.begin(),s.end(),[](const Op&a,const Op&b){return a.inv<b.inv;});
	std::string t; for (auto &o:s) { t+=fmt("[%llu-%llu p%d %s",(unsigned long long)o.inv,(unsigned long long)o.ret,o.proc,kindName[o.k]); if (o.k==WRITE||o.k==WFRONT||o.k==WAITLOW) t+=fmt("(%ld)",o.arg); else t+=fmt("->%ld",o.res); for (int d:o.del) t+=fmt(" del%d",d); t+="] "; }
	return t;
}
std::atomic<uint64_t> clk;
struct Recorder { std::vector<Op> ops; int proc; Op *begin(Kind k,long arg) { Op o; o.k=k;o.arg=arg;o.res=-1;o.proc=proc;o.ret=~0ULL;o.inv=clk.fetch_add(1); tlDel.clear(); ops.push_back(o); return &ops.back(); } void end(Op*o) { o->ret=clk.fetch_add(1); o->del=tlDel; tlDel.clear(); } };

long doOp(QIf &q, Recorder &r, Kind k, long arg, Item *it) {
	Op *o=r.begin(k,arg); Item *g=0;
	switch (k) {
	case WRITE: q.write(it); break;
	case WFRONT: q.writeFront(it); break;
	case READ: g=q.read(); o->res=g?g->id:-1; break;
	case READMS: g=q.readMs((unsigned)arg); o->res=g?g->id:-1; break;
	case READNB: g=q.readNoBlock(); o->res=g?g->id:-1; break;
	// the fronted object may be consumed by another thread at any time; objects live until the end of the case
	case FRONT: g=q.front(); o->res=g?g->id:-1; break;
	case SIZE: o->res=q.size(); break;
	case TOTAL: o->res=q.total(); break;
	case CLEAR: q.clear(); break;
	case FLUSH: q.flush(); break;
	case WAITLOW: q.waitLow(arg); break;
	case DESTROY: break;
	}
	r.end(o);
	return o->res;
}
}

// Short concurrent histories of all operations, checked for linearizability against a deque.
SCENARIO(queue_lin)
{
	int kind=c.rng.below(3); QIf *q=makeQ(kind);
	int nt=2+c.rng.below(3); int total=c.rng.range(6,24);
	Tab tab(2000);
	// FRONT on objects that can be deleted by a concurrent clear is a caller error; use one or the other.
	bool allowClear=c.rng.chance(1,3), allowFront=!allowClear && q->hasFront();
	std::vector<std::vector<std::pair<Kind,long>>> plan(nt); int nextId=0, writes=0;
	int bias=c.rng.below(3);
	for (int i=0;i<total;i++) {
		int t=c.rng.below(nt); unsigned d=c.rng.below(100); Kind k; long arg=0;
		unsigned wr = bias==0?35:bias==1?50:25;
		if (d<wr) k=WRITE; else if (d<wr+8) k=q->hasFront()?WFRONT:WRITE; else if (d<wr+20) k=READNB; else if (d<wr+28) { k=READMS; arg=c.rng.below(4)*2; }
		else if (d<wr+34) k=READ; else if (d<wr+40) k=SIZE; else if (d<wr+44) k=allowFront?FRONT:SIZE; else if (d<wr+46) k=allowClear?CLEAR:READNB; else if (d<wr+47) k=(q->hasFront()&&!allowClear)?FLUSH:READNB;
		else if (d<wr+49) k=q->hasTotal()?TOTAL:SIZE; else if (d<wr+50 && q->hasWait()) { k=WAITLOW; arg=c.rng.below(3); } else k=READNB;
		if (k==WRITE||k==WFRONT) { arg=nextId++; writes++; }
		plan[t].push_back(std::make_pair(k,arg));
	}
	for (auto &v:plan) v.reserve(64);
	std::vector<Item*> items; for (int i=0;i<nextId;i++) items.push_back(new Item(i,&tab));
	std::vector<Recorder> rec(nt+1); for (int i=0;i<=nt;i++) { rec[i].proc=i; rec[i].ops.reserve(128); }
	std::vector<std::atomic<int>> cur(nt); for (auto &x:cur) x=-1;
	clk=0; unsigned lv=c.rng.below(4); perturbOn(c.rng.next(),lv); spuriousWakeups(c.rng.chance(1,2)?100:0);
	std::vector<Worker> w(nt); std::vector<Worker*> ws; volatile int bar=0;
	for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t](){ perturbThread(t); spinBarrier(&bar,nt);
		for (auto &p:plan[t]) { cur[t]=p.first; doOp(*q,rec[t],p.first,p.second,(p.first==WRITE||p.first==WFRONT)?items[p.second]:0); cur[t]=-1; }
		cur[t]=-2; }); }
	// Feed blocked readers / drain for blocked low-water waiters until everybody is done.
	perturbThread(nt);
	auto allDone=[&](){ for (auto &x:cur) if (x!=-2) return false; return true; };
	bool stuck=false; int idle=0;
	while (!allDone()) {
		int rd=0,wl=0; for (auto &x:cur) { if (x==READ) rd++; if (x==WAITLOW) wl++; }
		usleep(100); if (++idle<8) continue; idle=0;
		if (rd && q->size()==0) { if (nextId>1900) {stuck=true;break;} Item *it=new Item(nextId,&tab); items.push_back(it); nextId++; if (rec[nt].ops.size()>40) q->write(it), rec[nt].ops.reserve(4096); else doOp(*q,rec[nt],WRITE,it->id,it); }
		else if (wl && !rd) doOp(*q,rec[nt],READNB,0,0);
		else {
			std::vector<Worker*> v(ws); bool allAsleep=true; for (auto x:v) if (!x->done && !asleep(x->tid,0.01)) allAsleep=false;
			if (allAsleep && !allDone()) { usleep(1000); if (!joinAll(v,2.0)) { bool rdNow=false,wlNow=false; for (auto &x:cur) { if (x==READ) rdNow=true; if (x==WAITLOW) wlNow=true; } if ((rdNow && q->size()==0) || (wlNow && !rdNow && q->size()>0)) continue; stuck=true;break;} }
		}
		if (rec[nt].ops.size()>200) { stuck=true; break; }
	}
	if (stuck) { std::string st; for (auto &x:cur) st+=fmt("%d ",(int)x); c.fail(std::string("stuck:")+q->name(),"operations blocked although their condition holds; current ops "+st+fmt("size=%zu",q->size())); abandonProcess(); }
	joinAll(ws); perturbOff(); spuriousWakeups(0);
	uint64_t sig=perturbSignature();
	std::vector<Op> h; for (auto &r:rec) for (auto &o:r.ops) h.push_back(o);
	const char *nm=q->name(); std::string name=nm;
	{ Op o; o.k=DESTROY; o.arg=0; o.res=-1; o.proc=nt; o.inv=clk.fetch_add(1); tlDel.clear(); delete q; o.ret=clk.fetch_add(1); o.del=tlDel; tlDel.clear(); h.push_back(o); }
	if (h.size()>60) { c.count("too_long"); }
	else {
		LinChecker<Model,Op> lc(h); Model init,fin; int r=lc.run(init,fin);
		if (r<0) c.count("lin_inconclusive"); else c.count("lin_histories");
		if (r==0) c.fail("notlin:"+name,"history not linearizable to a FIFO deque: "+histText(h));
	}
	for (int i=0;i<nextId;i++) { int s=tab.st[i]; if (s>2) c.fail("doubledelete:"+name,fmt("object %d deleted %d times",i,s-1)); if (s==1) delete items[i]; }
	tlDel.clear();
	c.count("ops",h.size()); c.coverHash(sig^hash64(histText(h)));
	if (c.caseNo%50==1) c.sample(name+" "+histText(h));
}

// Long sequential histories against a deque model.
// A derived queue disposes of elements in its own way.
struct OwnFree : InterthreadQueueWithWait<Item> { mutable std::vector<Item*> freed; void freeElement(Item *e) const { freed.push_back(e); } };
SCENARIO(queue_seq)
{
	{ OwnFree f; int k=c.rng.below(12), taken=0; Tab ft(k+1); std::vector<Item*> v; for (int i=0;i<k;i++) { v.push_back(new Item(i,&ft)); f.write(v[i]); if (c.rng.chance(1,4)) { f.readNoBlock(); taken++; } } f.clear(); if (f.freed!=std::vector<Item*>(v.begin()+taken,v.end())||f.size()) c.fail("clear:own",fmt("%d elements disposed of in the queue's own way, expected %d",(int)f.freed.size(),k-taken)); for (int i=0;i<k;i++) if (ft.st[i]!=1) { c.fail("clear:own","element deleted as well"); return; } for (auto x:v) delete x; tlDel.clear(); }
	int kind=c.rng.below(3); QIf *q=makeQ(kind); Tab tab(20000); int nextId=0; Model m; Recorder r; r.proc=0; std::vector<Item*> items;
	int n=c.rng.range(50,600); int mode=c.rng.below(3);
	for (int i=0;i<n;i++) {
		unsigned d=c.rng.below(100); Kind k; long arg=0; Item *it=0;
		unsigned wr = mode==0?50:mode==1?65:40;
		if (d<wr) k=WRITE; else if (d<wr+8) k=q->hasFront()?WFRONT:WRITE; else if (d<wr+18) k=m.q.empty()?READNB:READ; else if (d<wr+22) { k=READMS; arg=m.q.empty()?c.rng.below(3):c.rng.below(2000); } else if (d<wr+26) k=SIZE; else if (d<wr+30) k=q->hasFront()?FRONT:SIZE;
		else if (d<wr+31&&c.rng.chance(1,10)) k=CLEAR; else if (d<wr+32&&c.rng.chance(1,10)) k=q->hasFront()?FLUSH:SIZE; else if (d<wr+33) k=q->hasTotal()?TOTAL:SIZE; else if (d<wr+34&&q->hasWait()) { k=WAITLOW; arg=m.q.size()+c.rng.below(2); } else k=READNB;
		if (k==WRITE||k==WFRONT) { it=new Item(nextId,&tab); items.push_back(it); arg=nextId++; }
		doOp(*q,r,k,arg,it);
		size_t before=m.q.size();
		if (!m.step(r.ops.back())) { c.fail(std::string("seq:")+q->name()+":"+kindName[k],fmt("op %d %s arg %ld returned %ld, deleted %zu, model size %zu",i,kindName[k],arg,r.ops.back().res,r.ops.back().del.size(),before)); break; }
		if ((k==WRITE||k==WFRONT) && tab.st[arg]!=1) c.fail("seq:object","object not alive after write");
	}
	c.count("ops",r.ops.size());
	std::string name=q->name();
	tlDel.clear(); delete q; std::multiset<int> a(m.q.begin(),m.q.end()), b(tlDel.begin(),tlDel.end());
	if (a!=b) c.fail("destroy:"+name,fmt("destructor deleted %zu objects, queue held %zu",b.size(),a.size()));
	for (int i=0;i<nextId;i++) { if (tab.st[i]>2) c.fail("doubledelete:"+name,"object deleted twice"); if (tab.st[i]==1) delete items[i]; }
	tlDel.clear();
	c.coverHash(hash64(name)^r.ops.size()*77^c.rng.next());
}

// Throughput stress: exactly once, per producer order at every consumer, conservation.
SCENARIO(queue_stress)
{
	int kind=c.rng.below(3); QIf *q=makeQ(kind); int np=1+c.rng.below(4), nc=1+c.rng.below(4); int per=c.rng.range(50,c.thorough?1500:400);
	bool useFront = q->hasFront() && c.rng.chance(1,4);
	int total=np*per; Tab tab(total+64); std::vector<Item*> items(total+64); for (int i=0;i<total+64;i++) items[i]=new Item(i,&tab);
	std::vector<std::vector<int>> got(nc); int readMode=c.rng.below(4);
	perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,2)?30:0);
	std::vector<Worker> w(np+nc); std::vector<Worker*> ws; volatile int bar=0; std::atomic<int> taken(0), nulls(0);
	for (int p=0;p<np;p++) { ws.push_back(&w[p]); w[p].start([&,p](){ perturbThread(p); Rng r(p+c.seed); spinBarrier(&bar,np+nc); for (int i=0;i<per;i++) { Item*it=items[p*per+i]; if (useFront && r.chance(1,3)) q->writeFront(it); else q->write(it); if (r.chance(1,20)) q->size(); } }); }
	for (int k=0;k<nc;k++) { ws.push_back(&w[np+k]); w[np+k].start([&,k](){ perturbThread(100+k); Rng r(k*31+c.seed); spinBarrier(&bar,np+nc);
		for (;;) { if (taken.fetch_add(1)>=total) break; Item *it=0; int m=readMode==3?r.below(3):readMode;
			while (!it) { if (m==0) { it=q->read(); if (!it) { c.fail("nullread","blocking read returned NULL"); } } else if (m==1) it=q->readMs(1+r.below(4)); else it=q->readNoBlock(); if (!it) nulls++; if (!it && m==2) sched_yield(); }
			got[k].push_back(it->id); } }); }
	if (!joinAll(ws,3.0)) { c.fail(std::string("stuck:")+q->name(),fmt("stress threads asleep with %zu objects queued",q->size())); abandonProcess(); }
	perturbOff(); spuriousWakeups(0);
	std::vector<int> seen(total,0); size_t n=0;
	for (auto &g:got) { std::map<int,int> last; for (int id:g) { n++; if (id<0||id>=total) { c.fail("alien","object never written"); continue; } seen[id]++; int p=id/per; auto it=last.find(p); if (!useFront && it!=last.end() && it->second>id) c.fail(std::string("order:")+q->name(),fmt("consumer saw %d of producer %d after %d",id,p,it->second)); last[p]=id; } }
	for (int i=0;i<total;i++) if (seen[i]!=1) { c.fail(std::string("once:")+q->name(),fmt("object %d delivered %d times",i,seen[i])); break; }
	if (q->size()!=0) c.fail(std::string("leftover:")+q->name(),"queue not empty after everything was read");
	for (int i=total;i<total+64;i++) { if (i%2) q->write(items[i]); }
	tlDel.clear(); delete q; if (tlDel.size()!=32) c.fail("destroy","destructor did not delete exactly its contents");
	for (int i=0;i<total+64;i++) if (tab.st[i]==1) delete items[i]; else if (tab.st[i]!=2||i<total) c.fail("deleted","object owned by the reader was deleted by the queue");
	tlDel.clear();
	c.count("objects",n); c.count("timedout_reads",nulls); c.coverHash(perturbSignature()); c.count("sync_events",perturbEvents());
}

// Two connected queues served by one consumer: waiting on either returns exactly when one is non-empty.
SCENARIO(queue_connected)
{
	// the queue whose lock is shared must outlive the one connected to it
	InterthreadQueue<Item> b,a; a.iqConnect(b);
	int per=c.rng.range(5,60), np=1+c.rng.below(3); int total=np*per; Tab tab(total); std::vector<Item*> items; for (int i=0;i<total;i++) items.push_back(new Item(i,&tab));
	perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,2)?50:0);
	std::vector<Worker> w(np+1); std::vector<Worker*> ws; std::vector<int> gotA,gotB; volatile int bar=0; std::atomic<int> empties(0); bool useTimeout=c.rng.chance(1,2); bool waitSide=c.rng.chance(1,2); std::vector<int> sent(total,0); uint64_t ps=c.rng.next();
	for (int p=0;p<np;p++) { ws.push_back(&w[p]); w[p].start([&,p](){ perturbThread(p); Rng r(ps+p); spinBarrier(&bar,np+1); for (int i=0;i<per;i++) { int id=p*per+i; bool toA=r.chance(1,2); sent[id]=toA?1:2; (toA?a:b).write(items[id]); if (r.chance(1,8)) usleep(r.below(300)); } }); }
	ws.push_back(&w[np]); w[np].start([&](){ perturbThread(50); spinBarrier(&bar,np+1); int n=0;
		while (n<total) {
			if (waitSide) a.iqWaitForEither(b,useTimeout?20000:0); else b.iqWaitForEither(a,useTimeout?20000:0);
			bool any=false; Item *it; while ((it=a.readNoBlock())) { gotA.push_back(it->id); n++; any=true; } while ((it=b.readNoBlock())) { gotB.push_back(it->id); n++; any=true; }
			if (!any) empties++; } });
	if (!joinAll(ws,3.0)) { c.fail("stuck:connected",fmt("consumer asleep in wait-for-either with %zu+%zu queued",a.size(),b.size())); abandonProcess(); }
	perturbOff(); spuriousWakeups(0);
	// single consumer, so a return means something was there (timeouts are far away)
	if (empties) c.fail("either:empty","wait for either returned although both queues were empty and the timeout had not passed");
	std::vector<int> seen(total,0); for (int s=1;s<=2;s++) { std::map<int,int> last; for (int id:(s==1?gotA:gotB)) { seen[id]++; if (sent[id]!=s) c.fail("wrongqueue","object delivered through the other queue"); int p=id/per; if (last.count(p)&&last[p]>id) c.fail("order:connected","FIFO order broken"); last[p]=id; } }
	for (int i=0;i<total;i++) if (seen[i]!=1) c.fail("once:connected","object lost or duplicated");
	// iteration under the lock the queue hands out
	for (int i=0;i<total;i++) if (i%2) a.write(items[i]); else b.write(items[i]);
	{ Worker it; std::atomic<int> stop(0); int cnt=0; it.start([&](){ for (int r=0;r<50;r++) { Item *x=a.readNoBlock(); if (x) a.write_front(x); } stop=1; });
	  for (int k=0;k<20;k++) { ScopedLock l(a.qGetLock()); int n=0; for (InterthreadQueue<Item>::iterator i=a.begin();i!=a.end();++i) { n+=(*i)->id>=0; } cnt+=n; if (n!=total/2 && n!=total/2-1) c.fail("iterate","iteration under the queue lock saw an inconsistent queue"); }
	  it.join(); }
	a.flushNoDelete(); b.flushNoDelete();
	for (auto i:items) delete i; tlDel.clear();
	c.count("objects",total); c.coverHash(perturbSignature());
}

// Blocked operations are released by the event they wait for.
SCENARIO(queue_wake)
{
	setCaseLimit(40);
	int kind=c.rng.below(3); QIf *q=makeQ(kind); int nr=1+c.rng.below(5), nw=1+c.rng.below(3); int rounds=c.rng.range(1,6); int total=nr*rounds; Tab tab(total+1000); std::vector<Item*> items; for (int i=0;i<total;i++) items.push_back(new Item(i,&tab));
	perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,3)?100:0);
	int mode=c.rng.below(3); unsigned longMs = c.rng.pick(std::vector<unsigned>{60000,600000,86400000,2160000000u,4294967295u}); uint64_t ps=c.rng.next(); bool pre=c.rng.chance(1,2);
	std::vector<Worker> w(nr+nw); std::vector<Worker*> ws; volatile int bar=0; std::atomic<int> nulls(0);
	for (int k=0;k<nr;k++) { ws.push_back(&w[k]); w[k].start([&,k](){ perturbThread(k); Rng r(ps+k); if (!pre) spinBarrier(&bar,nr+nw); else __atomic_add_fetch(&bar,1,__ATOMIC_ACQ_REL); for (int i=0;i<rounds;i++) { int m=mode==2?r.below(2):mode; Item *it = m==0 ? q->read() : q->readMs(longMs); if (!it) nulls++; } }); }
	if (pre) { waitFor([&](){ return bar>=nr; },10); usleep(c.rng.below(2000)); }
	for (int p=0;p<nw;p++) { ws.push_back(&w[nr+p]); w[nr+p].start([&,p](){ perturbThread(50+p); Rng r(ps+77+p); spinBarrier(&bar,nr+nw); for (int i=p;i<total;i+=nw) { if (q->hasFront()&&r.chance(1,3)) q->writeFront(items[i]); else q->write(items[i]); } }); }
	if (!joinAll(ws,2.0)) { c.fail(std::string("lostwakeup:")+q->name(),fmt("%d readers, %zu objects available, threads asleep",nr,q->size())); abandonProcess(); }
	if (nulls) c.fail(std::string("earlynull:")+q->name(),"timed read with a minute-long timeout returned nothing although objects were written at once");
	perturbOff(); spuriousWakeups(0);
	if (q->hasWait()) {
		// low water waiters
		for (int i=0;i<(int)items.size();i++) q->write(items[i]);
		int nwait=1+c.rng.below(4); std::vector<Worker> v(nwait+1); std::vector<Worker*> vs; int useClear=c.rng.below(5);
		std::vector<size_t> marks; for (int k=0;k<nwait;k++) marks.push_back(c.rng.below(total)); long low=c.rng.chance(2,3)?(long)*std::min_element(marks.begin(),marks.end()):0;	// often no more is taken than the last waiter needs
		std::vector<long> after(nwait,-1); volatile int b2=0; std::atomic<long> remaining(total);
		perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,3)?100:0);
		for (int k=0;k<nwait;k++) { vs.push_back(&v[k]); v[k].start([&,k](){ perturbThread(k); __atomic_add_fetch(&b2,1,__ATOMIC_ACQ_REL); q->waitLow(marks[k]); after[k]=remaining.load(); }); }
		waitFor([&](){return b2>=nwait;},10); usleep(c.rng.below(1500));
		vs.push_back(&v[nwait]); v[nwait].start([&](){ perturbThread(60); if (useClear<4) { for (int i=0;i<total-low;i++) { remaining--; int k=useClear==3?i%3:useClear; if (k==0) q->read(); else if (k==1) q->readMs(1000); else q->readNoBlock(); } } else { remaining=0; q->clear(); } });
		if (!joinAll(vs,2.0)) { c.fail("lostwakeup:lowwater",fmt("%d waiters, queue size now %zu, still asleep",nwait,q->size())); abandonProcess(); }
		for (int k=0;k<nwait;k++) if (after[k] > (long)marks[k]) c.fail("lowwater:early",fmt("wait(%zu) returned while at least %ld objects were queued",marks[k],after[k]));
		perturbOff(); spuriousWakeups(0);
		if (useClear==4) { for (int i=0;i<total;i++) if (tab.st[i]!=2) c.fail("clear:delete","clear did not delete its contents exactly once"); items.clear(); }
		c.count("lowwater_waiters",nwait);
	}
	while (q->readNoBlock()) {}
	delete q; for (auto i:items) delete i; tlDel.clear();
	c.count("wakeups",total); c.coverHash(perturbSignature()); c.count("sync_events",perturbEvents());
}

// Queues sharing one lock, each with readers of its own and perhaps a thread waiting for two of them.
SCENARIO(queue_shared_wake)
{
	setCaseLimit(40); Rng &r=c.rng; InterthreadQueue<Item> q0,q1,q2; InterthreadQueue<Item> *q[3]={&q0,&q1,&q2}; int nq=2+r.below(2); q1.iqConnect(q0); if (nq==3) q2.iqConnect(r.chance(1,2)?q0:q1);
	int nr[3]={0,0,0}, rounds=r.range(1,6), total=0; for (int i=0;i<nq;i++) { nr[i]=r.below(3); total+=nr[i]*rounds; } if (!total) { nr[nq-1]=1; total=rounds; } bool either=r.chance(1,2); int ea=r.below(nq), eb=(ea+1+r.below(nq-1))%nq; if (either) nr[ea]=0; total=0; for (int i=0;i<nq;i++) total+=nr[i]*rounds; int mode=r.below(2); unsigned longMs=r.chance(1,2)?60000:4294967295u;
	Tab tab(total+1); std::vector<Item*> items; for (int i=0;i<=total;i++) items.push_back(new Item(i,&tab)); std::vector<int> dest; for (int i=0;i<nq;i++) for (int k=0;k<nr[i]*rounds;k++) dest.push_back(i); if (either) dest.push_back(ea); for (size_t i=dest.size();i>1;i--) std::swap(dest[i-1],dest[r.below(i)]);
	perturbOn(r.next(),r.below(4)); spuriousWakeups(r.chance(1,3)?100:0); uint64_t ps=r.next(); int nt=nr[0]+nr[1]+nr[2]+(either?1:0); std::vector<Worker> w(nt+1); std::vector<Worker*> ws; std::atomic<int> up(0), nulls(0); int t=0;
	for (int i=0;i<nq;i++) for (int k=0;k<nr[i];k++) { int id=t++; ws.push_back(&w[id]); w[id].start([&,i,id]{ perturbThread(id); Rng x(ps+id); up++; for (int j=0;j<rounds;j++) if (!((mode||x.chance(1,3))?q[i]->read(longMs):q[i]->read())) nulls++; }); }
	// nobody takes from the queue written once for the waiter (its own readers are none), so it stays filled until the waiter returns
	std::atomic<int> wrong(0); if (either) { int id=t++; ws.push_back(&w[id]); w[id].start([&,id]{ perturbThread(id); up++; for (;;) { q[ea]->iqWaitForEither(*q[eb],mode?60000:0); if (q[ea]->size()) break; if (nr[eb]==0 && !q[eb]->size()) { wrong++; break; } usleep(50); } }); }
	waitFor([&]{ return up>=nt; },10); if (r.chance(2,3)) usleep(r.below(2500));
	ws.push_back(&w[nt]); w[nt].start([&]{ perturbThread(90); Rng x(ps+99); for (size_t i=0;i<dest.size();i++) { q[dest[i]]->write(items[i]); if (x.chance(1,6)) usleep(x.below(400)); } });
	if (!joinAll(ws,2.0)) { c.fail("lostwakeup:shared",fmt("%d queues sharing a lock hold %zu, %zu, %zu objects while threads waiting for them are asleep (readers %d %d %d%s)",nq,q0.size(),q1.size(),q2.size(),nr[0],nr[1],nr[2],either?", one waiting for either of two":"")); abandonProcess(); }
	perturbOff(); spuriousWakeups(0); if (nulls) c.fail("earlynull:shared","timed read with a minute-long timeout returned nothing although objects were written at once"); if (wrong) c.fail("either:empty","waiting for either of two queues ended with both empty");
	for (int i=0;i<nq;i++) { size_t n=0; while (q[i]->readNoBlock()) n++; if (n!=(size_t)(either&&i==ea)) c.fail("shared:left",fmt("%zu objects left",n)); } for (auto i:items) delete i; tlDel.clear();
	c.count("shared_wakeups",total); c.coverHash(perturbSignature()); c.cover(fmt("%d %d %d %d %d",nq,nr[0],nr[1],nr[2],(int)either));
}

// Timed operations on an empty queue end, not before their timeout and without spinning forever.
SCENARIO(queue_timeout)
{
	setCaseLimit(60);
	int kind=c.rng.below(4); unsigned ms=c.rng.chance(1,10)?0:c.rng.range(1,150); long el=-1; size_t sz=0; bool gotNull=true;
	perturbOn(c.rng.next(),1); spuriousWakeups(c.rng.chance(1,2)?300:0);
	Worker w; std::vector<Worker*> ws(1,&w); QIf *q=kind<3?makeQ(kind):0; InterthreadQueue<Item> b,a; if (kind==3) { a.iqConnect(b); if (ms==0) ms=1; }
	std::atomic<int> phase(0);
	w.start([&](){ perturbThread(1); int64_t t0=monoNs(); phase=1; if (q) { gotNull = q->readMs(ms)==NULL; sz=q->size(); } else a.iqWaitForEither(b,ms); el=(monoNs()-t0)/1000000; phase=2; });
	if (!waitFor([&](){return phase==2;},25)) { c.fail(std::string("timeout:never:")+(q?q->name():"either"),fmt("operation with timeout %u ms still not finished after 25 s",ms)); abandonProcess(); }
	w.join();
	perturbOff(); spuriousWakeups(0);
	if (!gotNull) c.fail("timeout:value","read from an empty queue returned an object");
	if (el+3 < (long)ms) c.fail(std::string("timeout:early:")+(q?q->name():"either"),fmt("timeout %u ms, returned after %ld ms",ms,el));
	if (el > (long)ms+15000) c.fail("timeout:late",fmt("timeout %u ms, returned after %ld ms",ms,el));
	// after a timed-out wait the queue is still usable by others
	Worker x; std::vector<Worker*> xs(1,&x); Tab tab(4); Item i0(0,&tab); bool ok=false;
	x.start([&](){ if (q) { q->write(&i0); ok=q->read()==&i0; } else { a.write(&i0); a.iqWaitForEither(b,50); ok=a.read()==&i0 && b.size()==0; } });
	if (!joinAll(xs,2.0)) { c.fail("timeout:locked","queue unusable after a timed out operation"); abandonProcess(); }
	if (!ok) c.fail("timeout:after","queue lost an object after a timed out operation");
	delete q; (void)sz; c.count("timeouts"); c.cover(fmt("%d %u",kind,ms));
}
