// Pointer FIFOs and linked lists; vectors with owners and aliases.
#include "rt.h"
#include "leak.h"
#include <memory>
#include <cmath>
#include "Interthread.h"
#include "LinkedLists.h"
#include "Vector.h"
#include "BitVector.h"
#include "Configuration.h"
ConfigurationTable gConfig;
using namespace rt;

// ------------------------------------------------------------------ lists
SCENARIO(fifo_seq)
{
	uint64_t s=c.rng.next(); int n=c.rng.range(10,c.thorough?3000:800); int bias=c.rng.range(25,60); std::string bad;
	long lost=leakedBytes([&](){ Rng r(s); std::deque<char*> m; std::vector<char> arena(n+1); {
		PointerFIFO f;
		for (int i=0;i<n && bad.empty();i++) { int d=r.below(100);
			if (d<bias) { if (r.chance(1,4)) { f.push_front(&arena[i]); m.push_front(&arena[i]); } else { f.put(&arena[i]); m.push_back(&arena[i]); } }
			else if (d<92) { void *g=f.get(); char *w=m.empty()?NULL:m.front(); if (!m.empty()) m.pop_front(); if (g!=w) bad=fmt("get at step %d returned item %ld, expected %ld",i,g?(char*)g-&arena[0]:-1L,w?w-&arena[0]:-1L); }
			else if (f.front()!=(m.empty()?NULL:m.front())) bad="front";
			if (f.size()!=m.size()) bad=fmt("size %u expected %zu at step %d",f.size(),m.size(),i); }
		if (r.chance(1,2)) while (bad.empty()) { void *g=f.get(); char *w=m.empty()?NULL:m.front(); if (g!=w) bad="drain order"; if (!g) break; m.pop_front(); }
	} });
	if (!bad.empty()) c.fail("fifo:model",bad); if (lost) c.fail("fifo:leak",fmt("%ld bytes lost after the queue was destroyed, %d operations",lost,n));
	c.count("ops",n); c.coverHash(s);
}
namespace { struct Node { Node *nx; unsigned sz; int id; Node *next() { return nx; } void setNext(Node *n) { nx=n; } unsigned size() { return sz; } };
struct BNode : SingleLinkListNode { unsigned sz; int id; unsigned size() { return sz; } }; }
template<class N,class L> static void slist(Ctx &c, const char *nm)
{
	L l; std::deque<N*> m; int n=c.rng.range(10,400); std::vector<N> a(n); uint64_t tot=0; int bias=c.rng.range(25,60); std::vector<int> freeIds; for (int i=0;i<n;i++) { a[i].id=i; freeIds.push_back(i); }
	for (int i=0;i<n*2;i++) { int d=c.rng.below(100);
		if (d<bias && !freeIds.empty()) { size_t k=c.rng.below(freeIds.size()); N *x=&a[freeIds[k]]; freeIds.erase(freeIds.begin()+k); x->sz=c.rng.chance(1,10)?0:c.rng.below(10000); x->setNext((N*)&a[0]); /* stale link must not matter */ tot+=x->sz; int how=c.rng.below(3); if (how==0) { l.push_front(x); m.push_front(x); } else { if (how==1) l.push_back(x); else l.put(x); m.push_back(x); } }
		else if (d<95) { N *g=c.rng.chance(1,2)?(N*)l.pop_front():(N*)l.get(); N *w=m.empty()?NULL:m.front(); if (g!=w) { c.fail(std::string("slist:order:")+nm,fmt("step %d returned %d expected %d",i,g?g->id:-1,w?w->id:-1)); return; } if (w) { m.pop_front(); tot-=w->sz; if (g->next()!=NULL) c.fail("slist:link","removed node still linked"); freeIds.push_back(w->id); } }
		if (l.size()!=m.size() || l.totalSize()!=(unsigned)tot) { c.fail(std::string("slist:total:")+nm,fmt("step %d size %u/%zu total %u/%llu",i,l.size(),m.size(),l.totalSize(),(unsigned long long)tot)); return; }
		if ((N*)l.front()!=(m.empty()?NULL:m.front()) || (N*)l.back()!=(m.empty()?NULL:m.back())) { c.fail(std::string("slist:ends:")+nm,fmt("step %d front/back wrong, %zu elements",i,m.size())); return; }
		if (c.rng.chance(1,10)) { size_t k=0; for (N *x=(N*)l.front();x;x=(N*)x->next()) { if (k>=m.size()||m[k]!=x) { c.fail("slist:walk","walking the links does not show the contents"); return; } k++; } if (k!=m.size()) c.fail("slist:walk","walk too short"); } }
	c.count("ops",n*2); c.coverHash(c.rng.next());
}
SCENARIO(slist_seq) { if (c.rng.chance(1,2)) slist<Node,SingleLinkList<Node>>(c,"own"); else slist<BNode,SingleLinkList<>>(c,"base"); }
SCENARIO(ptrlist_seq)
{
	PtrList<int> l; std::deque<int*> m; int n=c.rng.range(10,400); std::vector<int> a(n);
	for (int i=0;i<n;i++) { switch (c.rng.below(7)) { case 0: l.put(&a[i]); m.push_back(&a[i]); break; case 1: l.push_back(&a[i]); m.push_back(&a[i]); break; case 2: l.push_front(&a[i]); m.push_front(&a[i]); break;
		case 3: case 4: { int *w=m.empty()?NULL:m.front(), *g=c.rng.chance(1,2)?l.get():l.pop_frontr(); if (!m.empty()) m.pop_front(); if (g!=w) c.fail("ptrlist:front","wrong element from the front"); break; }
		case 5: { int *w=m.empty()?NULL:m.back(), *g=l.pop_backr(); if (!m.empty()) m.pop_back(); if (g!=w) c.fail("ptrlist:back","wrong element from the back"); break; } default: break; }
		if (l.size()!=m.size() || !std::equal(m.begin(),m.end(),l.begin())) { c.fail("ptrlist:contents","contents differ from the model"); return; } }
	c.count("ops",n); c.coverHash(c.rng.next());
}

// ------------------------------------------------------------------ vectors
namespace {
template<class T> struct Blk { std::vector<T> d; bool alive=true; };
template<class V,class T> struct View { V *v; std::shared_ptr<Blk<T>> b; size_t off=0, len=0; bool owner=false; bool dead=false; };
template<class V,class T,class Mk> struct World {
	typedef View<V,T> W; typedef std::shared_ptr<Blk<T>> B; std::vector<W> w; Rng &r; std::string bad, trace; Mk mk;
	World(Rng &rr, Mk m) : r(rr), mk(m) {}
	~World() { for (auto &x:w) if (!x.owner) delete x.v; for (auto &x:w) if (x.owner) delete x.v; }
	B blk(size_t n) { B b=std::make_shared<Blk<T>>(); b->d.resize(n); return b; }
	void kill(W &x) { if (x.owner && x.b) { x.b->alive=false; for (auto &y:w) if (&y!=&x && y.b==x.b) y.dead=true; } }
	void add(V *v, B b, size_t off, size_t len, bool own) { W x; x.v=v;x.b=b;x.off=off;x.len=len;x.owner=own; w.push_back(x); }
	void set(W &x, B b, size_t off, size_t len, bool own) { x.b=b;x.off=off;x.len=len;x.owner=own;x.dead=false; }
	B copyOf(const W &x) { B b=blk(x.len); for (size_t i=0;i<x.len;i++) b->d[i]=x.b->d[x.off+i]; return b; }
	int pickLive() { std::vector<int> ok; for (size_t i=0;i<w.size();i++) if (!w[i].dead) ok.push_back(i); return ok.empty()?-1:ok[r.below(ok.size())]; }
	void dropDead() { for (size_t i=0;i<w.size();) if (w[i].dead && r.chance(1,2)) { delete w[i].v; w.erase(w.begin()+i); } else i++; }
	void fresh() { size_t n=r.chance(1,8)?0:r.range(1,40); B b=blk(n); V *v=new V(n); for (size_t i=0;i<n;i++) { T t=mk(r); (*v)[i]=t; b->d[i]=t; } add(v,b,0,n,n!=0); }
	bool verify(const char *op) {
		for (size_t k=0;k<w.size();k++) { W &x=w[k]; if (x.dead) continue; V &v=*x.v; const V &cv=v;
			if (v.size()!=x.len || v.bytes()!=x.len*sizeof(T)) { bad=fmt("after %s: vector %zu has size %zu, expected %zu",op,k,v.size(),x.len); return false; }
			if (v.isOwner()!=x.owner) { bad=fmt("after %s: vector %zu owner=%d, expected %d",op,k,(int)v.isOwner(),(int)x.owner); return false; }
			if ((size_t)(cv.end()-cv.begin())!=x.len) { bad=fmt("after %s: iterators span wrong size",op); return false; }
			for (size_t i=0;i<x.len;i++) if (!(v[i]==x.b->d[x.off+i]) || !(cv[i]==v[i]) || !(cv.begin()[i]==v[i])) { bad=fmt("after %s: vector %zu element %zu differs",op,k,i); return false; } }
		return true;
	}
	// operations common to all vector kinds; returns its name
	const char *common() {
		int a=pickLive(), b=pickLive(); if (a<0||w.size()<2) { fresh(); return "create"; } W &x=w[a], &y=w[b];
		switch (r.below(9)) {
		case 0: if (x.len) { size_t i=r.below(x.len); T t=mk(r); (*x.v)[i]=t; x.b->d[x.off+i]=t; } return "write";
		case 1: { T t=mk(r); x.v->fill(t); for (size_t i=0;i<x.len;i++) x.b->d[x.off+i]=t; return "fill"; }
		case 2: { size_t s=r.range(0,x.len), l=r.range(0,x.len-s); T t=mk(r); x.v->fill(t,s,l); for (size_t i=0;i<l;i++) x.b->d[x.off+s+i]=t; return "fill range"; }
		case 3: { if (y.len>x.len) return "-"; size_t st=r.range(0,x.len-y.len); std::vector<T> s(y.b->d.begin()+y.off,y.b->d.begin()+y.off+y.len); if (st==0&&r.chance(1,2)) y.v->copyTo(*x.v); else if (r.chance(1,2)) y.v->copyToSegment(*x.v,st); else { size_t sp=r.range(0,y.len); y.v->copyToSegment(*x.v,st,sp); for (size_t i=0;i<sp;i++) x.b->d[x.off+st+i]=s[i]; return "copyToSegment"; } for (size_t i=0;i<y.len;i++) x.b->d[x.off+st+i]=s[i]; return "copyTo"; }
		case 4: { size_t st=r.range(0,y.len), sp=r.range(0,std::min(y.len-st,x.len)); std::vector<T> s(y.b->d.begin()+y.off+st,y.b->d.begin()+y.off+st+sp); y.v->segmentCopyTo(*x.v,st,sp); for (size_t i=0;i<sp;i++) x.b->d[x.off+i]=s[i]; return "segmentCopyTo"; }
		case 5: { size_t n=r.chance(1,5)?0:r.range(1,40); kill(x); x.v->resize(n); B nb=blk(n); for (size_t i=0;i<n;i++) { T t=mk(r); (*x.v)[i]=t; nb->d[i]=t; } set(x,nb,0,n,n!=0); return "resize"; }
		case 6: { kill(x); x.v->clear(); set(x,blk(0),0,0,false); return "clear"; }
		case 7: { B nb=copyOf(y); size_t n=y.len; bool self=a==b; (void)self; kill(x); x.v->clone(*y.v); set(x,nb,0,n,n!=0); return "clone"; }
		case 8: { int e=pickLive(); W &z=w[e]; B nb=blk(y.len+z.len); for (size_t i=0;i<y.len;i++) nb->d[i]=y.b->d[y.off+i]; for (size_t i=0;i<z.len;i++) nb->d[y.len+i]=z.b->d[z.off+i]; size_t n=nb->d.size(); kill(x); x.v->vConcat(*y.v,*z.v); set(x,nb,0,n,n!=0); return "vConcat"; }
		}
		return "-";
	}
	void destroyOne() { int a=r.below(w.size()); kill(w[a]); delete w[a].v; w.erase(w.begin()+a); }
};
}

SCENARIO(vector_bits)
{
	uint64_t s=c.rng.next(); int n=c.rng.range(20,200); std::string bad,trace; uint64_t ops=0;
	long lost=leakedBytes([&](){ Rng r(s); auto mk=[](Rng &q){ return (char)q.below(2); }; World<BitVector,char,decltype(mk)> W(r,mk); trace="";
		typedef decltype(W)::B B;
		for (int i=0;i<n && W.bad.empty();i++) {
			const char *op="-"; if (W.w.size()>14) { W.destroyOne(); op="destroy"; } else {
			int a=W.pickLive(), b=W.pickLive(); int d=r.below(16);
			if (a<0) { W.fresh(); op="create"; } else { W.w.reserve(40); auto &x=W.w[a]; auto &y=W.w[b]; 
			switch (d) {
			case 0: W.fresh(); op="create"; break;
			case 1: { std::string t; for (size_t k=r.range(0,30);k>0;k--) t+=r.chance(1,10)?'x':(char)('0'+r.below(2)); B bb=W.blk(t.size()); for (size_t k=0;k<t.size();k++) bb->d[k]=t[k]=='1'; W.add(new BitVector(t.c_str()),bb,0,t.size(),!t.empty()); op="string"; break; }
			case 2: { BitVector *v=new BitVector(*x.v); if (x.owner) { B nb=W.copyOf(x); W.add(v,nb,0,x.len,x.len!=0); } else W.add(v,x.b,x.off,x.len,false); op="copy"; break; }
			case 3: { size_t st=r.range(0,x.len), l=r.range(0,x.len-st); int h=r.below(3); if (h==0) W.add(new BitVector(x.v->segment(st,l)),x.b,x.off+st,l,false); else if (h==1) W.add(new BitVector(x.v->head(l)),x.b,x.off,l,false); else W.add(new BitVector(x.v->tail(st)),x.b,x.off+st,x.len-st,false); op="segment"; break; }
			case 4: W.add(new BitVector(x.v->alias()),x.b,x.off,x.len,false); op="alias"; break;
			case 5: { size_t st=r.range(0,x.len), l=r.range(0,x.len-st); B nb=W.blk(l); for (size_t k=0;k<l;k++) nb->d[k]=x.b->d[x.off+st+k]; W.add(new BitVector(x.v->cloneSegment(st,l)),nb,0,l,l!=0); op="cloneSegment"; break; }
			case 6: { B nb=W.blk(x.len+y.len); for (size_t k=0;k<x.len;k++) nb->d[k]=x.b->d[x.off+k]; for (size_t k=0;k<y.len;k++) nb->d[x.len+k]=y.b->d[y.off+k]; W.add(new BitVector(*x.v,*y.v),nb,0,nb->d.size(),!nb->d.empty()); op="concat"; break; }
			case 7: case 8: { // assignment: from an owner a copy, from an alias another alias
				if (y.owner || a==b) { B nb=W.copyOf(y); size_t l=y.len; bool own=y.owner; if (!own) { *x.v=*y.v; op="assign self alias"; break; } W.kill(x); *x.v=*y.v; W.set(x,nb,0,l,l!=0); op="assign owner"; }
				else if (x.owner && y.b==x.b) { if (y.off<x.off||y.off+y.len>x.off+x.len) break; size_t o=y.off,l=y.len; *x.v=*y.v; x.off=o; x.len=l; op="assign own part"; }
				else { W.kill(x); if (y.dead) { break; } *x.v=*y.v; W.set(x,y.b,y.off,y.len,false); op="assign alias"; } break; }
			case 9: { if (x.owner && y.b==x.b) break; if (x.owner) break; size_t st=r.range(0,y.len), l=r.range(0,y.len-st); x.v->dup(y.v->segment(st,l)); W.set(x,y.b,y.off+st,l,false); op="dup"; break; }
			default: op=W.common(); } } }
			trace+=std::string(op)+" "; ops++; if (!W.verify(op)) break; W.dropDead(); if (W.w.size()>12 && r.chance(1,2)) { W.destroyOne(); if (!W.verify("destroy")) break; }
		}
		bad=W.bad; });
	if (!bad.empty()) c.fail("bitvector:alias",bad+"; "+trace); else if (lost) c.fail("bitvector:leak",fmt("%ld bytes lost; ",lost)+trace);
	c.count("ops",n); c.cover(trace); if (c.caseNo%300==1) c.sample(trace);
}
template<class V,class T,class Mk> static void vectorRun(Ctx &c, const char *nm, Mk mk)
{
	uint64_t s=c.rng.next(); int n=c.rng.range(20,200); std::string bad,trace;
	long lost=leakedBytes([&](){ Rng r(s); World<V,T,Mk> W(r,mk); trace=""; typedef typename World<V,T,Mk>::B B;
		for (int i=0;i<n && W.bad.empty();i++) {
			const char *op="-"; if (W.w.size()>14) { W.destroyOne(); op="destroy"; } else {
			int a=W.pickLive(), b=W.pickLive(); int d=r.below(18);
			if (a<0) { W.fresh(); op="create"; } else { W.w.reserve(40); auto &x=W.w[a]; auto &y=W.w[b];
			switch (d) {
			case 0: W.fresh(); op="create"; break;
			case 1: { const V &cx=*x.v; B nb=W.copyOf(x); W.add(new V(cx),nb,0,x.len,x.len!=0); op="copy const"; break; }
			case 2: { size_t st=r.range(0,x.len), l=r.range(0,x.len-st); int h=r.below(3); if (h==0) W.add(new V(x.v->segment(st,l)),x.b,x.off+st,l,false); else if (h==1) W.add(new V(x.v->head(l)),x.b,x.off,l,false); else W.add(new V(x.v->tail(st)),x.b,x.off+st,x.len-st,false); op="segment"; break; }
			case 3: { const V &cx=*x.v, &cy=*y.v; (void)cx; if (a==b) { *x.v=cy; op="assign const self"; if (!x.owner) { B nb=W.copyOf(x); W.set(x,nb,0,x.len,x.len!=0); } else { B nb=W.copyOf(x); size_t l=x.len; W.kill(x); W.set(x,nb,0,l,l!=0); } break; } B nb=W.copyOf(y); size_t l=y.len; W.kill(x); *x.v=cy; W.set(x,nb,0,l,l!=0); op="assign const"; break; }
			case 4: { // wrap an existing block, not owned
				if (!x.len) break; W.add(new V(x.v->begin(),x.len),x.b,x.off,x.len,false); op="wrap"; break; }
			case 5: { const V &cx=*x.v; size_t st=r.range(0,x.len), l=r.range(0,x.len-st); const V seg=cx.segment(st,l); bool ok=seg.size()==l; for (size_t k=0;ok&&k<l;k++) ok=seg[k]==x.b->d[x.off+st+k]; const V h=cx.head(l), t=cx.tail(st); ok=ok&&h.size()==l&&t.size()==x.len-st; for (size_t k=0;ok&&k<t.size();k++) ok=t[k]==x.b->d[x.off+st+k]; for (size_t k=0;ok&&k<l;k++) ok=h[k]==x.b->d[x.off+k]; if (!ok) W.bad="const segment shows other data"; op="const segment"; if (l && ok) { size_t q=r.below(l); T u=mk(r), z=mk(r); (*x.v)[st+q]=u; x.b->d[x.off+st+q]=u; if (!(seg[q]==u)) W.bad="write not seen through a segment of a const vector"; (*x.v)[q]=z; x.b->d[x.off+q]=z; if (!(h[q]==z)) W.bad="write not seen through the head of a const vector"; } if (t.size() && ok) { size_t q=r.below(t.size()); T u=mk(r); (*x.v)[st+q]=u; x.b->d[x.off+st+q]=u; if (!(t[q]==u)) W.bad="write not seen through the tail of a const vector"; } break; }
			case 6: { int nn=r.range(1,12), of=r.range(0,nn), ln=r.range(0,nn-of); T *p=new T[nn]; B nb=W.blk(nn); for (int k=0;k<nn;k++) nb->d[k]=p[k]=mk(r); W.add(new V(p,p+of,p+of+ln),nb,of,ln,true); op="adopt"; break; }
			case 7: { if (!std::is_same<V,Vector<T>>::value) { B nb=W.copyOf(x); W.add(new V(*x.v),nb,0,x.len,x.len!=0); op="copy"; break; } bool own=x.owner; V *v=new V(*x.v); if (x.v->isOwner()==v->isOwner() && own) { W.bad="copy of a changeable vector: not exactly one owner"; delete v; break; } if (own) { x.owner=false; W.add(v,x.b,x.off,x.len,true); } else W.add(v,x.b,x.off,x.len,false); op="move copy"; break; }
			case 8: { if (!std::is_same<V,Vector<T>>::value) { B nb=W.copyOf(y); size_t l=y.len; W.kill(x); *x.v=*y.v; W.set(x,nb,0,l,l!=0); op="assign"; break; } if (a==b) { *x.v=*y.v; op="assign self"; break; } if (x.owner && x.b==y.b) { if (y.off<x.off||y.off+y.len>x.off+x.len) break; size_t o=y.off,l=y.len; *x.v=*y.v; x.off=o; x.len=l; op="assign own part"; break; } bool own=y.owner; B yb=y.b; size_t yo=y.off,yl=y.len; W.kill(x); *x.v=*y.v; W.set(x,yb,yo,yl,own); y.owner=false; op="move assign"; break; }
			default: op=W.common(); } } }
			trace+=std::string(op)+" "; if (!W.verify(op)) break; W.dropDead(); if (W.w.size()>12 && r.chance(1,2)) { W.destroyOne(); if (!W.verify("destroy")) break; }
		}
		bad=W.bad; });
	if (!bad.empty()) c.fail(std::string("vector:alias:")+nm,bad+"; "+trace); else if (lost) c.fail(std::string("vector:leak:")+nm,fmt("%ld bytes lost; ",lost)+trace);
	c.count("ops",n); c.cover(nm+trace); if (c.caseNo%300==1) c.sample(trace);
}
// Vector also moves ownership on non-const copy and assignment.
SCENARIO(vector_generic) {
	if (c.rng.chance(1,2)) vectorRun<Vector<int>,int>(c,"int",[](Rng &q){ return (int)q.next(); });
	else if (c.rng.chance(1,3)) vectorRun<Vector<std::string>,std::string>(c,"string",[](Rng &q){ return std::string(q.below(60),(char)('a'+q.below(26))); });	// elements which own memory
	else if (c.rng.chance(1,2)) vectorRun<Vector<double>,double>(c,"double",[](Rng &q){ return (double)q.below(1000000)/7; });
	else vectorRun<SoftVector,float>(c,"soft",[](Rng &q){ return (float)q.below(1000)/1000; });
}
SCENARIO(vector_shift)
{
	uint64_t s=c.rng.next(); std::string bad;
	long lost=leakedBytes([&](){ Rng r(s); size_t n=r.range(1,50), m=r.range(0,50); Vector<int> a(n), b(m); std::vector<int> ma(n); for (size_t i=0;i<n;i++) a[i]=ma[i]=r.next(); for (size_t i=0;i<m;i++) b[i]=i;
		auto same=[&](const Vector<int> &v,const std::vector<int> &x){ if (v.size()!=x.size()) return false; for (size_t i=0;i<x.size();i++) if (v[i]!=x[i]) return false; return true; };
		if (r.chance(1,3)) { a=a; if (!same(a,ma)||!a.isOwner()) bad="self assignment lost the contents"; }
		{ Vector<int> t(a); if (!same(t,ma)||!t.isOwner()||a.isOwner()) bad="non const copy must move ownership to the new vector"; t[0]=ma[0]=77; if (!same(a,ma)) bad="former owner does not alias the data"; b=t; if (!same(b,ma)||!b.isOwner()||t.isOwner()) bad="non const assignment must move ownership"; }
		if (!same(b,ma)) bad="data gone after the former owner was destroyed"; b[n-1]=ma[n-1]=5; if (!same(b,ma)) bad="write lost";
		Vector<int> cc((const Vector<int>&)b,(const Vector<int>&)b); if (cc.size()!=2*n) bad="concatenation size"; else for (size_t i=0;i<2*n;i++) if (cc[i]!=ma[i%n]) bad="concatenation contents";
		std::ostringstream os; os<<b; std::ostringstream e; for (int v:ma) e<<v<<" "; if (os.str()!=e.str()) bad="print"; });
	if (!bad.empty()) c.fail("vector:shift",bad); if (lost) c.fail("vector:shift:leak",fmt("%ld bytes lost",lost)); c.count("ops",8); c.coverHash(s);
}
