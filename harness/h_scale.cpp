// Large contents: every property is to hold for any amount, so each container, text and table is taken well beyond
// the sizes of the other workloads (past 1000, 4096, 65536 elements, and long sequences of operations).
#include "rt.h"
#include "leak.h"
#include <memory>
#include <numeric>
#include <algorithm>
#include "Interthread.h"
#include "LinkedLists.h"
#include "Vector.h"
#include "BitVector.h"
#include "Utils.h"
#include "URLEncode.h"
#include "MemoryLeak.h"
#include "Configuration.h"
#include "sqlite3util.h"
ConfigurationTable gConfig;
using namespace rt;
using namespace std;

static long gLive=0, gDead=0;
namespace { struct Item { int v; Item(int w) : v(w) { __sync_fetch_and_add(&gLive,1); } ~Item() { v=-1; __sync_fetch_and_add(&gDead,1); } bool operator>(const Item &o) const { return v>o.v; } }; }
static int bigN(Ctx &c) { Rng &r=c.rng; switch (r.below(6)) { case 0: return r.range(65530,66200); case 1: return r.range(32760,33000); case 2: return r.range(10000,20000); case 3: return r.range(4000,9000); default: return r.range(900,3000); } }
static void reset() { gLive=gDead=0; }
static void balance(Ctx &c, const char *key, long handed, const char *what) { if (gDead+handed!=gLive) c.fail(key,fmt("%s: %ld elements made, %ld handed out, %ld deleted",what,gLive,handed,gDead)); }

// ---- queues
template<class Q> static auto pushFront(Q &q, Item *x) -> decltype(q.write_front(x), void()) { q.write_front(x); }
static void pushFront(InterthreadQueueWithWait<Item> &q, Item *x) { q.write(x); }
template<class Q> static void bigQueue(Ctx &c, const char *nm)
{
	Rng &r=c.rng; reset(); int n=bigN(c); long handed=0; int front=string(nm)=="queue"?r.below(2000):0, left=r.chance(1,2)?0:r.range(1,n); bool mixed=r.chance(1,3);
	{ Q q; deque<int> m; auto take=[&](const char *w){ Item *x=r.chance(1,2)?q.readNoBlock():q.read(50); if (!x) { c.fail("scale:queue-lost",fmt("%s: nothing read although %zu elements are queued (%s)",nm,m.size(),w)); return false; } if (x->v!=m.front()) { c.fail("scale:queue-order",fmt("%s: element %d read, expected %d (%s)",nm,x->v,m.front(),w)); } m.pop_front(); handed++; delete x; handed--; return true; };
	  for (int i=0;i<n;i++) { q.write(new Item(i)); m.push_back(i); if (mixed&&i%3==2&&!take("while filling")) return; }
	  if (q.size()!=m.size()) c.fail("scale:queue-size",fmt("%s: size %zu of %zu elements",nm,(size_t)q.size(),m.size()));
	  for (int i=0;i<front;i++) { pushFront(q,new Item(-2-i)); m.push_front(-2-i); } if (q.size()!=m.size()) c.fail("scale:queue-size",fmt("%s: size %zu of %zu elements",nm,(size_t)q.size(),m.size()));
	  while ((int)m.size()>left) if (!take("draining")) return;
	  int cycles=r.chance(1,2)?bigN(c):0; for (int i=0;i<cycles;i++) { q.write(new Item(n+i)); m.push_back(n+i); if (!take("cycling")) return; }
	  if (q.size()!=m.size()) c.fail("scale:queue-size",fmt("%s: size %zu of %zu elements at the end",nm,(size_t)q.size(),m.size())); if (r.chance(1,2)) { q.clear(); if (q.size()) c.fail("scale:queue-clear","elements left after clearing"); } }
	balance(c,"scale:queue-own",0,nm); c.count("elements",n); c.cover(fmt("%s %d %d %d",nm,n,front,left));
}
SCENARIO(scale_queue)
{
	if (c.rng.chance(1,3)) bigQueue<InterthreadQueueWithWait<Item>>(c,"queue with wait"); else bigQueue<InterthreadQueue<Item>>(c,"queue");
	// from one thread to another, further ahead than any buffer
	Rng &r=c.rng; int n=r.range(5000,30000); InterthreadQueue<Item> q; reset(); Worker w; w.start([&]{ for (int i=0;i<n;i++) q.write(new Item(i)); }); if (r.chance(1,2)) waitFor([&]{ return w.done; },20); bool ok=true; for (int i=0;i<n&&ok;i++) { Item *x=q.read(5000); if (!x||x->v!=i) { c.fail("scale:queue-handover",x?fmt("element %d received, expected %d",x->v,i):fmt("element %d of %d never arrives",i,n)); ok=false; } delete x; } w.join(); c.count("handed_over",n);
}
// ---- map
SCENARIO(scale_map)
{
	Rng &r=c.rng; reset(); int n=bigN(c); { InterthreadMap<int,Item> m; InterthreadMap1<int,int> v; vector<int> keys(n); iota(keys.begin(),keys.end(),-n/2); for (int i=n-1;i>0;i--) swap(keys[i],keys[r.below(i+1)]);
	map<int,int> M; for (int k:keys) { m.write(k,new Item(k*3)); v.write(k,k%5); M[k]=k*3; } if (m.size()!=M.size()||v.size()!=M.size()) c.fail("scale:map-size",fmt("size %u of %zu keys",(unsigned)m.size(),M.size()));
	for (int k:keys) { Item *x=m.readNoBlock(k); if (!x||x->v!=M[k]) { c.fail("scale:map-value",fmt("key %d of %d reads %d, expected %d",k,n,x?x->v:0,M[k])); return; } int g=99; if (!v.getNoBlock(k,g,false)||g!=k%5) { c.fail("scale:map1-value",fmt("key %d of %d holds %d, expected %d",k,n,g,k%5)); return; } }
	int rem=r.below(n); for (int i=0;i<rem;i++) { int k=keys[i]; switch (i%3) { case 0: if (!m.remove(k)) { c.fail("scale:map-remove",fmt("key %d not removed",k)); return; } M.erase(k); break; case 1: m.write(k,new Item(k*7)); M[k]=k*7; v.write(k,0); { int g=5; if (!v.getNoBlock(k,g,false)||g) { c.fail("scale:map1-zero",fmt("key %d holds %d after 0 was written",k,g)); return; } } break; default: { Item *x=NULL; if (!m.getNoBlock(k,x)||!x||x->v!=M[k]) { c.fail("scale:map-get",fmt("key %d not got",k)); return; } delete x; M.erase(k); } } }
	if (m.size()!=M.size()||v.size()!=(size_t)n) c.fail("scale:map-size",fmt("size %u of %zu keys after removals",(unsigned)m.size(),M.size())); for (int k:keys) { Item *x=m.readNoBlock(k); auto w=M.find(k); if ((w==M.end())!=(x==NULL)||(x&&x->v!=w->second)) { c.fail("scale:map-value",fmt("key %d of %d after changes",k,n)); return; } } 
	size_t k=0; { ScopedLock l(m.qGetLock()); for (auto it=m.begin();it!=m.end();++it) { if (!M.count(it->first)||it->second->v!=M[it->first]) { c.fail("scale:map-iterate","an element which is not there"); break; } k++; } } if (k!=M.size()) c.fail("scale:map-iterate",fmt("%zu of %zu elements",k,M.size())); }
	balance(c,"scale:map-own",0,"map"); c.count("keys",n); c.cover(fmt("%d",n));
}
// ---- priority queue
SCENARIO(scale_pq)
{
	Rng &r=c.rng; reset(); int n=bigN(c), span=r.chance(1,2)?n*10:20; { InterthreadPriorityQueue<Item> q; multiset<int> M; for (int i=0;i<n;i++) { int x=r.chance(1,3)?i:r.below(span); q.write(new Item(x)); M.insert(x); } if (q.size()!=M.size()) c.fail("scale:pq-size",fmt("size %zu of %zu",(size_t)q.size(),M.size())); int left=r.chance(1,2)?0:r.below(n);
	while ((int)M.size()>left) { Item *x=r.chance(1,2)?q.readNoBlock():q.read(50); if (!x) { c.fail("scale:pq-lost",fmt("nothing read although %zu elements are queued",M.size())); return; } if (x->v!=*M.begin()) { c.fail("scale:pq-order",fmt("read %d, the smallest of %zu is %d",x->v,M.size(),*M.begin())); delete x; return; } M.erase(M.begin()); delete x; if (r.chance(1,8)) { int y=r.below(span); q.write(new Item(y)); M.insert(y); } }
	if (q.size()!=M.size()) c.fail("scale:pq-size",fmt("size %zu of %zu at the end",(size_t)q.size(),M.size())); if (r.chance(1,2)) { q.clear(); if (q.size()) c.fail("scale:pq-clear","elements left after clearing"); } }
	balance(c,"scale:pq-own",0,"priority queue"); c.count("elements",n); c.cover(fmt("%d %d",n,span));
}
// ---- lists
namespace { struct Nd : SingleLinkListNode { unsigned sz; int id; unsigned size() { return sz; } }; }
SCENARIO(scale_list)
{
	Rng &r=c.rng; int n=bigN(c); vector<char> a(n); uint64_t s=r.next(); string bad;
	long lost=leakedBytes([&]{ Rng q(s); PointerFIFO f; for (int round=0;round<3&&bad.empty();round++) { deque<char*> m; for (int i=0;i<n;i++) if (q.chance(1,5)) { f.push_front(&a[i]); m.push_front(&a[i]); } else { f.put(&a[i]); m.push_back(&a[i]); } if (f.size()!=m.size()) bad=fmt("size %u of %zu",f.size(),m.size()); while (bad.empty()&&(round<2?m.size():m.size()>(size_t)n/3)) { if (f.front()!=m.front()||f.get()!=m.front()) bad=fmt("wrong item with %zu left, round %d",m.size(),round); m.pop_front(); } if (round<2&&bad.empty()&&(f.size()||f.get())) bad="not empty after everything was taken"; }
		for (int i=0;i<2*n&&bad.empty();i++) { f.put(&a[i%n]); if (!f.get()) bad="nothing while cycling"; } });
	if (!bad.empty()) c.fail("scale:fifo",bad); if (lost) c.fail("scale:fifo-leak",fmt("%ld bytes lost by a queue of %d",lost,n));
	{ SingleLinkList<> l; vector<Nd> nodes(n); deque<Nd*> m; uint64_t tot=0; for (int i=0;i<n;i++) { nodes[i].id=i; nodes[i].sz=r.chance(1,100)?1000000:r.below(100); tot+=nodes[i].sz; if (r.chance(1,5)) { l.push_front(&nodes[i]); m.push_front(&nodes[i]); } else { l.push_back(&nodes[i]); m.push_back(&nodes[i]); } if (i%97==0&&(l.size()!=m.size()||l.totalSize()!=(unsigned)tot)) { c.fail("scale:slist",fmt("size %u total %u of %zu elements, total %llu",l.size(),l.totalSize(),m.size(),(unsigned long long)tot)); return; } }
	  if (l.size()!=m.size()||l.totalSize()!=(unsigned)tot) c.fail("scale:slist",fmt("size %u total %u of %zu elements",l.size(),l.totalSize(),m.size())); while (m.size()) { Nd *x=(Nd*)l.pop_front(); if (x!=m.front()) { c.fail("scale:slist",fmt("wrong element with %zu left",m.size())); return; } tot-=x->sz; m.pop_front(); if (l.size()!=m.size()||l.totalSize()!=(unsigned)tot) { c.fail("scale:slist",fmt("size %u total %u with %zu left",l.size(),l.totalSize(),m.size())); return; } } if (l.pop_front()||l.size()) c.fail("scale:slist","not empty after everything was taken"); }
	{ PtrList<char> l; deque<char*> m; for (int i=0;i<n;i++) { l.put(&a[i]); m.push_back(&a[i]); } if (l.size()!=m.size()) c.fail("scale:ptrlist",fmt("size %zu of %zu",l.size(),m.size())); while (m.size()) { bool b=r.chance(1,2); char *x=b?l.pop_backr():l.get(), *w=b?m.back():m.front(); if (x!=w) { c.fail("scale:ptrlist",fmt("wrong element with %zu left",m.size())); return; } if (b) m.pop_back(); else m.pop_front(); } if (l.pop_frontr()||l.pop_backr()) c.fail("scale:ptrlist","not empty after everything was taken"); }
	c.count("elements",n); c.cover(fmt("%d",n));
}
// ---- vectors
template<class T> static void bigVec(Ctx &c, const char *nm)
{
	Rng &r=c.rng; size_t n=bigN(c)*(r.chance(1,4)?4:1); auto val=[&](size_t i){ return (T)((i*2654435761u>>7)%101); }; Vector<T> v(n); vector<T> m(n); for (size_t i=0;i<n;i++) v[i]=m[i]=val(i);
	auto same=[&](const Vector<T> &x, const vector<T> &w, const char *what){ if (x.size()!=w.size()) { c.fail("scale:vector-size",fmt("%s of %zu %s elements has %zu",what,w.size(),nm,x.size())); return; } for (size_t i=0;i<w.size();i++) if (x[i]!=w[i]) { c.fail("scale:vector-content",fmt("%s of %zu %s elements differs at %zu",what,w.size(),nm,i)); return; } if (x.bytes()!=w.size()*sizeof(T)) c.fail("scale:vector-bytes","size in bytes"); };
	same(v,m,"vector"); { Vector<T> u((const Vector<T>&)v); same(u,m,"copy"); u[n-1]=(T)7; same(v,m,"original of a copy"); } { Vector<T> u; u.clone(v); same(u,m,"clone"); } { Vector<T> u; u=(const Vector<T>&)v; same(u,m,"assigned vector"); }
	size_t a=r.below(n), b=r.below(n-a+1); { Vector<T> s=v.segment(a,b); same(s,vector<T>(m.begin()+a,m.begin()+a+b),"segment"); Vector<T> t=v.tail(a), h=v.head(b); same(t,vector<T>(m.begin()+a,m.end()),"tail"); same(h,vector<T>(m.begin(),m.begin()+b),"head"); Vector<T> k((const Vector<T>&)h,(const Vector<T>&)t); vector<T> w(m.begin(),m.begin()+b); w.insert(w.end(),m.begin()+a,m.end()); same(k,w,"concatenation"); Vector<T> big(n+5); big.fill((T)3); v.copyToSegment(big,5); vector<T> bw(5,(T)3); bw.insert(bw.end(),m.begin(),m.end()); same(big,bw,"vector copied into"); v.segmentCopyTo(big,a,b); copy(m.begin()+a,m.begin()+a+b,bw.begin()); same(big,bw,"segment copied into"); }
	v.fill((T)9,a,b); fill(m.begin()+a,m.begin()+a+b,(T)9); same(v,m,"filled part"); v.fill((T)5); fill(m.begin(),m.end(),(T)5); same(v,m,"filled vector"); c.count("elements",n); c.cover(fmt("%s %zu %zu %zu",nm,n,a,b));
}
SCENARIO(scale_vector)
{
	switch (c.rng.below(4)) { case 0: bigVec<char>(c,"char"); break; case 1: bigVec<int>(c,"int"); break; case 2: bigVec<double>(c,"double"); break; default: bigVec<unsigned short>(c,"short"); }
	Rng &r=c.rng; size_t n=bigN(c); { Vector<string> v(n); for (size_t i=0;i<n;i++) v[i]=fmt("%zu",i); Vector<string> w((const Vector<string>&)v); v.fill("x"); for (size_t i=0;i<n;i++) if (w[i]!=fmt("%zu",i)||v[i]!="x") { c.fail("scale:vector-class",fmt("element %zu of %zu texts",i,n)); break; } } (void)r;
}
// ---- encodings
SCENARIO(scale_codec)
{
	Rng &r=c.rng; size_t n=r.chance(1,2)?bigN(c):bigN(c)*3+r.below(4); string d(n,0); for (auto &x:d) x=(char)r.next(); string e, err; static const char b64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	for (int k=0;k<3;k++) { const char *enc=k==0?"base64":k==1?"hex":"binary"; err.clear(); e=encodeToString(d.data(),n,enc,err); string w; if (k==0) for (size_t i=0;i<n;i+=3) { uint32_t x=(uint8_t)d[i]<<16|(i+1<n?(uint8_t)d[i+1]<<8:0)|(i+2<n?(uint8_t)d[i+2]:0); w+=b64[x>>18]; w+=b64[x>>12&63]; w+=i+1<n?b64[x>>6&63]:'='; w+=i+2<n?b64[x&63]:'='; } else if (k==1) { static const char h[]="0123456789ABCDEF"; for (unsigned char x:d) { w+=h[x>>4]; w+=h[x&15]; } } else w=d;
		if (e!=w||err.size()) { size_t i=0; while (i<e.size()&&i<w.size()&&e[i]==w[i]) i++; c.fail("scale:encode",fmt("%s text of %zu bytes has %zu characters, expected %zu, differing at %zu",enc,n,e.size(),w.size(),i)); } if (k<2&&r.chance(1,2)) { string s; for (size_t i=0;i<w.size();i++) { s+=w[i]; if (i%76==75) s+="\r\n"; } w=s; } err.clear(); string g=decodeToString(w.data(),w.size(),enc,err); if (g!=d||err.size()) c.fail("scale:decode",fmt("%s of %zu bytes decodes to %zu bytes, error '%s'",enc,n,g.size(),err.c_str()));
		if (k<2) { string bad=w; bad[bad.size()-1-r.below(std::min<size_t>(bad.size()-1,200000))]='*'; err.clear(); decodeToString(bad.data(),bad.size(),enc,err); if (err.empty()) c.fail("scale:bad-accepted",fmt("%s text of %zu characters with a wrong one accepted",enc,bad.size())); } }
	string u=URLEncode(d), w; for (unsigned char x:d) if (x<128&&(isalnum(x)||(x&&strchr("-_.!~'()",x)))) w+=x; else w+=fmt("%%%02X",x); if (u!=w) c.fail("scale:url",fmt("%zu bytes encode to %zu characters, expected %zu",n,u.size(),w.size())); c.count("bytes",n); c.cover(fmt("%zu",n));
}
// ---- texts
SCENARIO(scale_text)
{
	Rng &r=c.rng; size_t n=bigN(c); if (n>20000&&r.chance(1,2)) n/=10; vector<string> words(n); string in, lines; static const char *sp[]={" ","  ","\t","\r\n","\n"}; for (size_t i=0;i<n;i++) { words[i]=fmt("w%zu",i); if (r.chance(1,30)) words[i]+=string(r.below(40),'x'); in+=words[i]+sp[r.below(5)]; }
	vector<string> g; stringSplit(g,in.c_str()); if (g!=words) c.fail("scale:split",fmt("%zu words split into %zu",n,g.size()));
	{ vector<char> cp(in.begin(),in.end()); cp.push_back(0); vector<char*> av(n+3); int k=cstrSplit(cp.data(),av.data(),n+3,NULL); bool ok=k==(int)n; for (size_t i=0;ok&&i<n;i++) ok=words[i]==av[i]; if (!ok) c.fail("scale:cstr-split",fmt("%zu words split into %d",n,k)); }
	{ size_t i=r.chance(1,2)?n-1:r.below(n); unsigned len=0; char *p=cstrGetArg(in.c_str(),i+1,&len); if (!p||string(p,len)!=words[i]) c.fail("scale:nth-word",fmt("word %zu of %zu is %s",i+1,n,p?quote(string(p,len)).c_str():"not found")); if (cstrGetArg(in.c_str(),n+1,&len)) c.fail("scale:nth-word","a word beyond the last"); }
	for (size_t i=0;i<n;i++) lines+=words[i]+"\n"; { size_t k=r.chance(1,3)?n:r.chance(1,3)?n+5:1+r.below(n); string w; size_t p=0; for (size_t i=0;i<k&&p<lines.size();i++) p=lines.find('\n',p)+1; w=lines.substr(0,p); string f=firstlines(lines,k); if (f!=w) c.fail("scale:first-lines",fmt("first %zu of %zu lines has %zu characters, expected %zu",k,n,f.size(),w.size())); }
	{ string a="'", s, w; for (size_t i=0;i<n;i++) { s+=i%2?"ab":"cab"; w+=i%2?"xyz":"cxyz"; } string f=replaceAll(s,"ab","xyz"); if (f!=w) c.fail("scale:replace",fmt("%zu occurrences",n)); string z=replaceAll(s,"ab",""); if ((size_t)count(z.begin(),z.end(),'c')!=z.size()||z.size()!=(n+1)/2) c.fail("scale:replace",fmt("%zu occurrences removed",n)); f=replaceAll(s,"b","bb"); if (f.size()!=s.size()+n) c.fail("scale:replace",fmt("%zu occurrences doubled",n)); }
	{ string f=stringcat(in,lines,in,lines,"",in,lines); if (f!=in+lines+in+lines+in+lines) c.fail("scale:concat",fmt("%zu characters, got %zu",3*(in.size()+lines.size()),f.size())); }
	if (n<5000) { prettyTable_t tab; size_t cols=r.range(1,30); for (size_t i=0;i<n;i++) { vector<string> row; for (size_t k=0;k<cols;k++) row.push_back(fmt("%zu.%zu",i,k)); tab.push_back(row); } for (int ts=0;ts<2;ts++) { ostringstream os; printPrettyTable(tab,os,ts); istringstream is(os.str()); string l; size_t i=0; bool ok=true; while (ok&&i<n&&getline(is,l)) { vector<string> w; if (ts) { size_t p=0; for (;;) { size_t q=l.find('\t',p); w.push_back(l.substr(p,q==string::npos?q:q-p)); if (q==string::npos) break; p=q+1; } } else { istringstream ws(l); string x; while (ws>>x) w.push_back(x); } ok=w==tab[i]; i++; } if (!ok||i!=n) c.fail("scale:table",fmt("row %zu of %zu with %zu columns",i,n,cols)); } }
	c.count("words",n); c.cover(fmt("%zu",n));
}
