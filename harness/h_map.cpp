// Interthread map, priority queue, semaphore: linearizability, ownership, wakeups, timeouts.
#include "rt.h"
#include "conc.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
using namespace rt; using namespace conc;
thread_local std::vector<int> conc::tlDel;

namespace {
Tab *gTab; 
struct Item {
	int id; int pri; std::string payload;	// heap payload: a read after deletion or a leak is visible to the sanitizer
	Item(int i,int p=0) : id(i),pri(p),payload(40,'x') { gTab->st[i]=1; }
	~Item() { gTab->st[id]++; tlDel.push_back(id); }
	bool operator>(const Item &o) const { return pri>o.pri; }
	static void *operator new(size_t n);
	static void operator delete(void *) {}	// storage lives until the end of the case
};
struct Arena { std::vector<char*> blocks; pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; void *get(size_t n) { char *p=(char*)malloc(n); pthread_mutex_lock(&mu); blocks.push_back(p); pthread_mutex_unlock(&mu); return p; } void reset() { for (auto b:blocks) free(b); blocks.clear(); } } gArena;
void *Item::operator new(size_t n) { return gArena.get(n); }
struct Ids { std::map<const void*,int> m; pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER;
	void add(Item*i,int id) { pthread_mutex_lock(&mu); m[i]=id; pthread_mutex_unlock(&mu); }
	int of(const void*p) { if (!p) return -1; pthread_mutex_lock(&mu); auto it=m.find(p); int r=it==m.end()?-99:it->second; pthread_mutex_unlock(&mu); return r; } };

enum MK { WRITE, GETNB, PEEKNB, GETMS, PEEKMS, GET, PEEK, READNB, READMS, READ, REMOVE, SIZE, DESTROY };
const char *mkName[]={"write","getNoBlock","getNoBlock(keep)","get(ms)","get(ms,keep)","get","get(keep)","readNoBlock","read(ms)","read","remove","size","destroy"};
struct MapModel {
	std::map<long,int> m;
	std::string key() const { std::string s; for (auto &p:m) { s+=(char)p.first; s+=(char)p.second; s+=(char)(p.second>>8); } return s; }
	bool step(const COp &o) {
		auto it=m.find(o.key); int have=it==m.end()?-1:it->second; bool timed=o.kind==GETMS||o.kind==PEEKMS||o.kind==READMS;
		switch (o.kind) {
		case WRITE: { std::vector<int> want; if (have>=0) want.push_back(have); if (o.del!=want) return false; m[o.key]=o.arg; return true; }
		case REMOVE: { std::vector<int> want; if (have>=0) want.push_back(have); if (o.del!=want || o.res!=(have>=0)) return false; if (have>=0) m.erase(it); return true; }
		case SIZE: return o.res==(long)m.size();
		case DESTROY: { std::multiset<int> a,b(o.del.begin(),o.del.end()); for (auto &p:m) a.insert(p.second); return a==b; }
		}
		if (!o.del.empty()) return false;
		(void)timed;
		if (o.res==-1) return have<0 && o.kind!=GET && o.kind!=PEEK && o.kind!=READ;
		if (o.res!=have) return false;
		if (o.kind==GETNB||o.kind==GETMS||o.kind==GET) m.erase(it);
		return true;
	}
};
struct MapSys {
	InterthreadMap<int,Item> *q; Ids ids; std::vector<Item*> items; std::atomic<int> next;
	bool blocking(const Plan &p) { return p.kind==GET||p.kind==PEEK||p.kind==READ; }
	bool enabled(const Plan &p) { return q->readNoBlock(p.key)!=NULL; }
	Plan feed(const Plan &p) { int id=next++; Item *i=new Item(id); items[id]=i; ids.add(i,id); return Plan{WRITE,p.key,id}; }
	long exec(const Plan &p) {
		Item *r=NULL; bool ok;
		switch (p.kind) {
		case WRITE: q->write(p.key,items[p.arg]); return 0;
		case GETNB: ok=q->getNoBlock(p.key,r); return ok?ids.of(r):-1;
		case PEEKNB: ok=q->getNoBlock(p.key,r,false); return ok?ids.of(r):-1;
		case GETMS: ok=q->get(p.key,r,(unsigned)p.arg,true); return ok?ids.of(r):-1;
		case PEEKMS: ok=q->get(p.key,r,(unsigned)p.arg,false); return ok?ids.of(r):-1;
		case GET: ok=q->get((const int)p.key,r,true); return ok?ids.of(r):-1;
		case PEEK: ok=q->get((const int)p.key,r,false); return ok?ids.of(r):-1;
		case READNB: return ids.of(q->readNoBlock(p.key));
		case READMS: return ids.of(q->read(p.key,(unsigned)p.arg));
		case READ: return ids.of(q->read(p.key));
		case REMOVE: return q->remove(p.key);
		case SIZE: return q->size();
		}
		return -98;
	}
	std::string text(const COp &o) { return fmt("%s(k%ld%s)->%ld",mkName[o.kind],o.key,o.kind==WRITE?fmt(",#%ld",o.arg).c_str():"",o.res); }
};
Plan mapOp(Rng &r, MapSys &s, int nkeys, bool allowBlock) {
	int key=r.below(nkeys); unsigned d=r.below(100); int k; long arg=0;
	if (d<32) k=WRITE; else if (d<42) k=GETNB; else if (d<46) k=PEEKNB; else if (d<54) { k=GETMS; arg=r.below(4)*2; } else if (d<58) { k=PEEKMS; arg=r.below(4)*2; } else if (d<63) k=GET; else if (d<66) k=PEEK; else if (d<74) k=READNB; else if (d<79) { k=READMS; arg=r.below(4)*2; } else if (d<83) k=READ; else if (d<94) k=REMOVE; else k=SIZE;
	if (!allowBlock && (k==GET||k==PEEK||k==READ)) k=READNB;
	if (k==WRITE) { int id=s.next++; Item *i=new Item(id); s.items[id]=i; s.ids.add(i,id); arg=id; }
	return Plan{k,key,arg};
}
void finishItems(Ctx &c, std::vector<Item*> &items, int n, const std::string &what, const std::function<bool(int)> &mustBeGone) {
	for (int i=0;i<n;i++) { int s=gTab->st[i]; if (s>2) c.fail("doubledelete:"+what,fmt("object %d deleted %d times",i,s-1)); if (s==1) { if (mustBeGone(i)) c.fail("leak:"+what,fmt("object %d neither deleted nor handed to a caller",i)); delete items[i]; } }
	tlDel.clear(); gArena.reset();
}
}

SCENARIO(map_lin)
{
	Tab tab(4000); gTab=&tab; MapSys s; s.next=0; s.items.resize(4000); s.q=new InterthreadMap<int,Item>;
	int nt=2+c.rng.below(3), total=c.rng.range(6,26), nkeys=1+c.rng.below(3);
	std::vector<std::vector<Plan>> plan(nt); for (int i=0;i<total;i++) plan[c.rng.below(nt)].push_back(mapOp(c.rng,s,nkeys,true));
	Driver<MapSys> d(c,s);
	if (!d.run(plan,c.rng.below(4),c.rng.chance(1,2)?100:0)) { c.fail("stuck:map","map operations blocked although their key is present: "+d.stuckText); abandonProcess(); }
	uint64_t sig=perturbSignature();
	d.append(nt,Plan{DESTROY,0,0},[&](){ delete s.q; });
	d.judge(MapModel(),"notlin:map");
	std::set<int> taken; for (auto &o:d.hist) if ((o.kind==GETNB||o.kind==GETMS||o.kind==GET) && o.res>=0) if (!taken.insert(o.res).second) c.fail("once:map",fmt("object %ld removed twice: ",o.res)+d.text());
	std::set<int> written; for (auto &o:d.hist) if (o.kind==WRITE) written.insert(o.arg);
	c.count("ops",d.hist.size()); c.coverHash(sig^hash64(d.text())); if (c.caseNo%60==1) c.sample(d.text());
	finishItems(c,s.items,s.next,"map",[&](int i){ return written.count(i) && !taken.count(i); });
}

SCENARIO(map_seq)
{
	Tab tab(4000); gTab=&tab; MapSys s; s.next=0; s.items.resize(4000); s.q=new InterthreadMap<int,Item>; MapModel m; int nkeys=1+c.rng.below(20); std::set<int> taken; int n=c.rng.range(50,500);
	for (int i=0;i<n;i++) {
		Plan p=mapOp(c.rng,s,nkeys,true); bool has=m.m.count(p.key);
		if ((p.kind==GET||p.kind==PEEK||p.kind==READ) && !has) p.kind=READNB;
		if ((p.kind==GETMS||p.kind==PEEKMS||p.kind==READMS)) p.arg=has?c.rng.pick(std::vector<long>{0,5,60000,4294967295u}):c.rng.below(3);
		COp o; o.kind=p.kind;o.key=p.key;o.arg=p.arg; tlDel.clear(); o.res=s.exec(p); o.del=tlDel; tlDel.clear();
		if (!m.step(o)) { c.fail(std::string("seq:map:")+mkName[p.kind],fmt("step %d ",i)+s.text(o)+fmt(" deleted %zu, key held by model: %d",o.del.size(),(int)has)); break; }
		if ((p.kind==GETNB||p.kind==GETMS||p.kind==GET)&&o.res>=0) taken.insert(o.res);
		if (i%50==7) { ScopedLock l(s.q->qGetLock()); std::map<long,int> got; for (InterthreadMap<int,Item>::iterator it=s.q->begin();it!=s.q->end();++it) got[it->first]=s.ids.of(it->second); if (got!=m.m) c.fail("seq:map:iterate","iteration does not show the map's contents"); }
	}
	delete s.q; std::multiset<int> a,b(tlDel.begin(),tlDel.end()); for (auto &p:m.m) a.insert(p.second);
	if (a!=b) c.fail("destroy:map",fmt("destructor deleted %zu objects, map held %zu",b.size(),a.size()));
	c.count("ops",n); c.coverHash(c.rng.next());
	finishItems(c,s.items,s.next,"map",[&](int i){ return false; });
}

// The value (non pointer) variant: keys and values move together, nothing deleted.
SCENARIO(map1_values)
{
	struct VMap : InterthreadMap1<std::string,long> { std::vector<long> del; void vdelete(long v) { del.push_back(v); } };
	VMap q; std::map<std::string,long> m; int nk=1+c.rng.below(12); long next=1; int n=c.rng.range(20,300);
	for (int i=0;i<n;i++) {
		std::string k=fmt("key%d",(int)c.rng.below(nk)); bool has=m.count(k); long v=-7; bool ok; q.del.clear(); std::vector<long> wantDel;
		switch (c.rng.below(6)) {
		case 0: case 1: if (has) wantDel.push_back(m[k]); v=c.rng.chance(1,6)?0:next++; q.write(k,v); m[k]=v; v=-7; break;
		case 2: ok=q.getNoBlock(k,v); if (ok!=has || (has && v!=m[k])) c.fail("map1:get","getNoBlock wrong"); if (has) m.erase(k); break;
		case 3: ok=q.get(k,v,has?1000u:1u,false); if (ok!=has || (has && v!=m[k])) c.fail("map1:read","get(keep) wrong"); break;
		case 4: ok=q.remove(k); if (has) wantDel.push_back(m[k]); if (ok!=has) c.fail("map1:remove","remove wrong result"); m.erase(k); break;
		case 5: if (q.size()!=m.size()) c.fail("map1:size",fmt("size %u expected %zu",q.size(),m.size())); break;
		}
		if (q.del!=wantDel) c.fail("map1:vdelete",fmt("disposed of %zu values, expected %zu",q.del.size(),wantDel.size()));
		ok=q.getNoBlock(k,v,false); if (ok!=(bool)m.count(k) || (ok && v!=m[k])) c.fail("map1:after","contents after operation wrong");
	}
	c.count("ops",n); c.coverHash(c.rng.next());
}

SCENARIO(map_wake)
{
	setCaseLimit(40);
	Tab tab(4000); gTab=&tab; InterthreadMap<int,Item> *q=new InterthreadMap<int,Item>; Ids ids;
	int nr=1+c.rng.below(6), nw=1+c.rng.below(3), rounds=c.rng.range(1,4); bool keep=c.rng.chance(1,3); bool sameKey=c.rng.chance(1,2);
	int total=nr*rounds; std::vector<Item*> items; for (int i=0;i<total*2;i++) { items.push_back(new Item(i)); ids.add(items[i],i); }
	unsigned longMs=c.rng.pick(std::vector<unsigned>{60000,86400000,2160000000u,4294967295u}); uint64_t ps=c.rng.next(); bool pre=c.rng.chance(1,2); int mode=c.rng.below(3);
	perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,3)?100:0);
	// reader k waits for its keys in order; keys are distinct per round, shared between readers when keep&&sameKey
	auto keyOf=[&](int k,int i){ return (keep&&sameKey)? i : k*100+i; };
	std::vector<Worker> w(nr+nw); std::vector<Worker*> ws; volatile int bar=0; std::atomic<int> wrong(0);
	for (int k=0;k<nr;k++) { ws.push_back(&w[k]); w[k].start([&,k](){ perturbThread(k); Rng r(ps+k); if (!pre) spinBarrier(&bar,nr+nw); else __atomic_add_fetch(&bar,1,__ATOMIC_ACQ_REL);
		for (int i=0;i<rounds;i++) { Item *it=NULL; int m=mode==2?r.below(2):mode; bool ok; if (m==0) ok=q->get((const int)keyOf(k,i),it,!keep); else ok=q->get(keyOf(k,i),it,longMs,!keep); if (!ok||!it||ids.of(it)!=((keep&&sameKey)?i:k*rounds+i)) wrong++; } }); }
	if (pre) { waitFor([&](){return bar>=nr;},10); usleep(c.rng.below(2000)); }
	std::vector<std::pair<int,int>> jobs; if (keep&&sameKey) for (int i=0;i<rounds;i++) jobs.push_back({i,i}); else for (int k=0;k<nr;k++) for (int i=0;i<rounds;i++) jobs.push_back({keyOf(k,i),k*rounds+i});
	for (size_t i=jobs.size();i>1;i--) std::swap(jobs[i-1],jobs[c.rng.below(i)]);
	for (int p=0;p<nw;p++) { ws.push_back(&w[nr+p]); w[nr+p].start([&,p](){ perturbThread(50+p); Rng r(ps+7+p); spinBarrier(&bar,nr+nw); for (size_t i=p;i<jobs.size();i+=nw) { if (r.chance(1,3)) q->write(90000+p,items[total+jobs[i].second]); q->write(jobs[i].first,items[jobs[i].second]); } }); }
	if (!joinAll(ws,2.0)) { c.fail("lostwakeup:map",fmt("%d readers asleep although every key was written; map size %u",nr,q->size())); abandonProcess(); }
	if (wrong) c.fail("wake:map:value",fmt("%d waiting reads returned nothing or the wrong object",(int)wrong));
	perturbOff(); spuriousWakeups(0); delete q; for (size_t i=0;i<items.size();i++) if (tab.st[i]==1) delete items[i]; tlDel.clear(); gArena.reset();
	c.count("wakeups",total); c.coverHash(perturbSignature()^c.rng.next());
}

// ------------------------------------------------------------------ priority queue
namespace {
enum PK { PWRITE, PREAD, PREADMS, PREADNB, PPEEK, PSIZE, PCLEAR, PDESTROY };
const char *pkName[]={"write","read","read(ms)","readNoBlock","peek","size","clear","destroy"};
std::vector<int> gPri;
struct PqModel {
	std::multiset<std::pair<int,int>> m;	// (pri,id)
	std::string key() const { std::string s; for (auto &p:m) { s+=(char)p.second; s+=(char)(p.second>>8); } return s; }
	bool step(const COp &o) {
		switch (o.kind) {
		case PWRITE: m.insert({gPri[o.arg],o.arg}); return o.del.empty();
		case PREAD: case PREADMS: case PREADNB: {
			if (!o.del.empty()) return false;
			if (o.res==-1) return o.kind!=PREAD && m.empty();
			if (o.res<0||m.empty()) return false;
			auto it=m.find({gPri[o.res],(int)o.res}); if (it==m.end() || it->first!=m.begin()->first) return false; m.erase(it); return true; }
		case PPEEK: if (!o.del.empty()) return false; if (o.res==-1) return m.empty(); if (o.res<0) return false; { auto it=m.find({gPri[o.res],(int)o.res}); return it!=m.end() && it->first==m.begin()->first; }
		case PSIZE: return o.res==(long)m.size();
		case PCLEAR: case PDESTROY: { std::multiset<int> a,b(o.del.begin(),o.del.end()); for (auto &p:m) a.insert(p.second); if (a!=b) return false; m.clear(); return true; }
		}
		return false;
	}
};
struct PqSys {
	InterthreadPriorityQueue<Item> *q; Ids ids; std::vector<Item*> items; std::atomic<int> next;
	bool blocking(const Plan &p) { return p.kind==PREAD; }
	bool enabled(const Plan &p) { return q->size()!=0; }
	int mk(int pri) { int id=next++; gPri[id]=pri; items[id]=new Item(id,pri); ids.add(items[id],id); return id; }
	Plan feed(const Plan &p) { return Plan{PWRITE,0,mk(5)}; }
	long exec(const Plan &p) {
		switch (p.kind) {
		case PWRITE: q->write(items[p.arg]); return 0;
		case PREAD: return ids.of(q->read());
		case PREADMS: return ids.of(q->read((unsigned)p.arg));
		case PREADNB: return ids.of(q->readNoBlock());
		case PPEEK: return ids.of(q->peek());
		case PSIZE: return q->size();
		case PCLEAR: q->clear(); return 0;
		}
		return -98;
	}
	std::string text(const COp &o) { return o.kind==PWRITE?fmt("write(#%ld pri %d)",o.arg,gPri[o.arg]):fmt("%s->%ld%s",pkName[o.kind],o.res,o.res>=0&&o.kind<=PPEEK?fmt(" pri %d",gPri[o.res]).c_str():""); }
};
Plan pqOp(Rng &r, PqSys &s, int npri) {
	unsigned d=r.below(100);
	if (d<45) return Plan{PWRITE,0,s.mk((int)r.below(npri)-npri/2)};
	if (d<55) return Plan{PREAD,0,0};
	if (d<65) return Plan{PREADMS,0,(long)r.below(4)*2};
	if (d<85) return Plan{PREADNB,0,0};
	if (d<92) return Plan{PPEEK,0,0};
	if (d<99) return Plan{PSIZE,0,0};
	return Plan{PCLEAR,0,0};
}
}
SCENARIO(pq_lin)
{
	Tab tab(4000); gTab=&tab; gPri.assign(4000,0); PqSys s; s.next=0; s.items.resize(4000); s.q=new InterthreadPriorityQueue<Item>;
	int nt=2+c.rng.below(3), total=c.rng.range(6,26), npri=1+c.rng.below(6);
	std::vector<std::vector<Plan>> plan(nt); for (int i=0;i<total;i++) plan[c.rng.below(nt)].push_back(pqOp(c.rng,s,npri));
	Driver<PqSys> d(c,s);
	if (!d.run(plan,c.rng.below(4),c.rng.chance(1,2)?100:0)) { c.fail("stuck:pq","blocked although the queue has elements: "+d.stuckText); abandonProcess(); }
	uint64_t sig=perturbSignature();
	d.append(nt,Plan{PDESTROY,0,0},[&](){ delete s.q; });
	d.judge(PqModel(),"notlin:pq");
	std::set<int> taken,written; for (auto &o:d.hist) { if (o.kind>=PREAD&&o.kind<=PREADNB&&o.res>=0) if (!taken.insert(o.res).second) c.fail("once:pq","object delivered twice: "+d.text()); if (o.kind==PWRITE) written.insert(o.arg); }
	c.count("ops",d.hist.size()); c.coverHash(sig^hash64(d.text())); if (c.caseNo%60==1) c.sample(d.text());
	finishItems(c,s.items,s.next,"pq",[&](int i){ return written.count(i)&&!taken.count(i); });
}
SCENARIO(pq_seq)
{
	Tab tab(6000); gTab=&tab; gPri.assign(6000,0); PqSys s; s.next=0; s.items.resize(6000); s.q=new InterthreadPriorityQueue<Item>; PqModel m; int npri=1+c.rng.below(c.rng.chance(1,2)?5:1000); int n=c.rng.range(50,800);
	for (int i=0;i<n;i++) {
		Plan p=pqOp(c.rng,s,npri); if (p.kind==PREAD && m.m.empty()) p.kind=PREADNB; if (p.kind==PREADMS) p.arg=m.m.empty()?c.rng.below(3):c.rng.pick(std::vector<long>{0,5,60000,4294967295u}); if (p.kind==PCLEAR && !c.rng.chance(1,5)) p.kind=PSIZE;
		COp o; o.kind=p.kind;o.arg=p.arg; tlDel.clear(); o.res=s.exec(p); o.del=tlDel; tlDel.clear();
		if (!m.step(o)) { c.fail(std::string("seq:pq:")+pkName[p.kind],fmt("step %d ",i)+s.text(o)+fmt(" top of model pri %d, size %zu, deleted %zu",m.m.empty()?-999:m.m.begin()->first,m.m.size(),o.del.size())); break; }
	}
	delete s.q; std::multiset<int> a,b(tlDel.begin(),tlDel.end()); for (auto &p:m.m) a.insert(p.second);
	if (a!=b) c.fail("destroy:pq",fmt("destructor deleted %zu objects, queue held %zu",b.size(),a.size()));
	c.count("ops",n); c.coverHash(c.rng.next());
	finishItems(c,s.items,s.next,"pq",[&](int i){ return false; });
}
SCENARIO(pq_stress)
{
	int np=1+c.rng.below(4), nc=1+c.rng.below(4), per=c.rng.range(50,c.thorough?1000:300), total=np*per; Tab tab(total+1); gTab=&tab; gPri.assign(total+1,0);
	InterthreadPriorityQueue<Item> *q=new InterthreadPriorityQueue<Item>; std::vector<Item*> items; for (int i=0;i<total;i++) items.push_back(new Item(i,gPri[i]=c.rng.below(50)));
	perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,2)?30:0); std::vector<Worker> w(np+nc); std::vector<Worker*> ws; volatile int bar=0; std::atomic<int> taken(0); std::vector<std::vector<int>> got(nc); uint64_t ps=c.rng.next();
	for (int p=0;p<np;p++) { ws.push_back(&w[p]); w[p].start([&,p](){ perturbThread(p); spinBarrier(&bar,np+nc); for (int i=0;i<per;i++) q->write(items[p*per+i]); }); }
	for (int k=0;k<nc;k++) { ws.push_back(&w[np+k]); w[np+k].start([&,k](){ perturbThread(100+k); Rng r(ps+k); spinBarrier(&bar,np+nc); for (;;) { if (taken.fetch_add(1)>=total) break; Item *it=0; int m=r.below(3); while (!it) { if (m==0) it=q->read(); else if (m==1) it=q->read(1u+(unsigned)r.below(4)); else { it=q->readNoBlock(); if (!it) sched_yield(); } } got[k].push_back(it->id); } }); }
	if (!joinAll(ws,3.0)) { c.fail("stuck:pq",fmt("threads asleep with %zu elements queued",q->size())); abandonProcess(); }
	perturbOff(); spuriousWakeups(0); std::vector<int> seen(total,0); for (auto &g:got) for (int id:g) seen[id]++;
	for (int i=0;i<total;i++) if (seen[i]!=1||tab.st[i]!=1) { c.fail("once:pq",fmt("object %d delivered %d times, deleted %d times",i,seen[i],tab.st[i]-1)); break; }
	delete q; for (int i=0;i<total;i++) if (tab.st[i]==1) delete items[i]; tlDel.clear(); gArena.reset();
	c.count("objects",total); c.coverHash(perturbSignature());
}
SCENARIO(pq_wake)
{
	setCaseLimit(40);
	int nr=1+c.rng.below(5), nw=1+c.rng.below(3), rounds=c.rng.range(1,6), total=nr*rounds; Tab tab(total+1); gTab=&tab; InterthreadPriorityQueue<Item> *q=new InterthreadPriorityQueue<Item>; std::vector<Item*> items; for (int i=0;i<total;i++) items.push_back(new Item(i,c.rng.below(4)));
	unsigned longMs=c.rng.pick(std::vector<unsigned>{60000,86400000,2160000000u,4294967295u}); uint64_t ps=c.rng.next(); bool pre=c.rng.chance(1,2); int mode=c.rng.below(3);
	perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,3)?100:0); std::vector<Worker> w(nr+nw); std::vector<Worker*> ws; volatile int bar=0; std::atomic<int> nulls(0);
	for (int k=0;k<nr;k++) { ws.push_back(&w[k]); w[k].start([&,k](){ perturbThread(k); Rng r(ps+k); if (!pre) spinBarrier(&bar,nr+nw); else __atomic_add_fetch(&bar,1,__ATOMIC_ACQ_REL); for (int i=0;i<rounds;i++) { int m=mode==2?r.below(2):mode; if (!(m?q->read(longMs):q->read())) nulls++; } }); }
	if (pre) { waitFor([&](){return bar>=nr;},10); usleep(c.rng.below(2000)); }
	for (int p=0;p<nw;p++) { ws.push_back(&w[nr+p]); w[nr+p].start([&,p](){ perturbThread(50+p); spinBarrier(&bar,nr+nw); for (int i=p;i<total;i+=nw) q->write(items[i]); }); }
	if (!joinAll(ws,2.0)) { c.fail("lostwakeup:pq",fmt("%d readers, %zu elements available, threads asleep",nr,q->size())); abandonProcess(); }
	if (nulls) c.fail("earlynull:pq","timed read with a minute-long timeout returned nothing although elements were written at once");
	perturbOff(); spuriousWakeups(0); delete q; for (int i=0;i<total;i++) if (tab.st[i]==1) delete items[i]; tlDel.clear(); gArena.reset();
	c.count("wakeups",total); c.coverHash(perturbSignature());
}
// Timed reads on an empty structure: neither early nor forever.
SCENARIO(mappq_timeout)
{
	setCaseLimit(60);
	int kind=c.rng.below(4); unsigned ms=c.rng.chance(1,10)?0:c.rng.range(1,120); Tab tab(8); gTab=&tab; InterthreadMap<int,Item> *m=new InterthreadMap<int,Item>; InterthreadPriorityQueue<Item> *q=new InterthreadPriorityQueue<Item>;
	perturbOn(c.rng.next(),1); spuriousWakeups(c.rng.chance(1,2)?300:0); std::atomic<int> phase(0); long el=-1; bool found=false; Worker w; bool noise=c.rng.chance(1,2); std::atomic<bool> stop(false);
	Worker nw; if (noise) nw.start([&](){ while (!stop) { m->write(77,new Item(1)); m->remove(77); usleep(500); gTab->st[1]=0; } });	// unrelated activity must not extend or shorten the wait
	w.start([&](){ perturbThread(1); Item *r=NULL; int64_t t0=monoNs(); if (kind==0) found=m->get(5,r,ms); else if (kind==1) found=m->get(5,r,ms,false); else if (kind==2) found=m->read(5,ms)!=NULL; else found=q->read(ms)!=NULL; el=(monoNs()-t0)/1000000; phase=2; });
	bool fin=waitFor([&](){return phase==2;},25); stop=true;
	if (!fin) { c.fail(fmt("timeout:never:%d",kind),fmt("timeout %u ms never ended",ms)); abandonProcess(); }
	w.join(); nw.join(); perturbOff(); spuriousWakeups(0);
	if (found) c.fail("timeout:value","found something in an empty structure");
	if (el+3<(long)ms) c.fail(fmt("timeout:early:%d",kind),fmt("timeout %u ms, returned after %ld ms",ms,el));
	if (el>(long)ms+15000) c.fail("timeout:late",fmt("timeout %u ms, returned after %ld ms",ms,el));
	Worker x; std::vector<Worker*> xs(1,&x); bool ok=false; x.start([&](){ Item *i=new Item(0), *r=NULL; if (kind<3) { m->write(5,i); ok=m->getNoBlock(5,r) && r==i; } else { q->write(i); ok=q->read()==i; } delete i; });
	if (!joinAll(xs,2.0)) { c.fail("timeout:locked","unusable after a timed out operation"); abandonProcess(); }
	if (!ok) c.fail("timeout:after","object lost after a timed out operation");
	delete m; delete q; tlDel.clear(); gArena.reset(); c.count("timeouts"); c.cover(fmt("%d %u",kind,ms));
}

// ------------------------------------------------------------------ semaphore
namespace {
enum SK { POST, SGET, STRY };
struct SemModel { bool f=false; std::string key() const { return f?"1":"0"; } bool step(const COp &o) { if (o.kind==POST) { f=true; return true; } if (o.kind==SGET) { if (!f) return false; f=false; return true; } bool r=f; f=false; return o.res==r; } };
struct SemSys { Semaphore s; bool blocking(const Plan &p) { return p.kind==SGET; } bool enabled(const Plan&) { return false; } Plan feed(const Plan&) { return Plan{POST,0,0}; }
	long exec(const Plan &p) { if (p.kind==POST) { s.post(); return 0; } if (p.kind==SGET) { s.get(); return 0; } return s.semtry(); }
	std::string text(const COp &o) { return o.kind==POST?"post":o.kind==SGET?"get":fmt("try->%ld",o.res); } };
}
SCENARIO(sem_lin)
{
	SemSys s; int nt=2+c.rng.below(3), total=c.rng.range(5,24); std::vector<std::vector<Plan>> plan(nt);
	for (int i=0;i<total;i++) { unsigned d=c.rng.below(100); plan[c.rng.below(nt)].push_back(Plan{d<45?POST:d<75?SGET:STRY,0,0}); }
	Driver<SemSys> d(c,s); if (!d.run(plan,c.rng.below(4),c.rng.chance(1,2)?100:0)) { c.fail("stuck:sem","semaphore waiter not released by posts: "+d.stuckText); abandonProcess(); }
	d.judge(SemModel(),"notlin:sem"); c.count("ops",d.hist.size()); c.coverHash(perturbSignature()^hash64(d.text())); if (c.caseNo%60==1) c.sample(d.text());
}
SCENARIO(sem_wake)
{
	setCaseLimit(40);
	// one token handed around: each post must release one getter, strictly alternating
	Semaphore a,b; int rounds=c.rng.range(5,80); perturbOn(c.rng.next(),c.rng.below(4)); spuriousWakeups(c.rng.chance(1,2)?100:0); std::atomic<int> x(0),bad(0);
	Worker w1,w2; std::vector<Worker*> ws{&w1,&w2};
	w1.start([&](){ perturbThread(0); for (int i=0;i<rounds;i++) { if (x++!=2*i) bad++; a.post(); b.get(); } });
	w2.start([&](){ perturbThread(1); for (int i=0;i<rounds;i++) { a.get(); if (x++!=2*i+1) bad++; b.post(); } });
	if (!joinAll(ws,2.0)) { c.fail("lostwakeup:sem","ping-pong threads asleep although a post is pending"); abandonProcess(); }
	perturbOff(); spuriousWakeups(0); if (bad) c.fail("sem:early","a semaphore wait returned without a post"); if (a.semtry()||b.semtry()) c.fail("sem:extra","flag left over after every post was consumed");
	c.count("handoffs",2*rounds); c.coverHash(perturbSignature());
}
