// Bit fields, packing, hex, parity words, bit maps, puncturing, soft vectors: against bit-string models.
#include "rt.h"
#include <cmath>
#include <iomanip>
#include "BitVector.h"
#include "Configuration.h"
ConfigurationTable gConfig;
using namespace rt;

typedef std::vector<int> Bits;
// now and then a much longer vector
static size_t stretch(Rng &r, size_t n) { return r.chance(1,12)?r.range(250,r.chance(1,4)?9000:2500):n; }
static std::string str(const Bits &b) { std::string s; for (int x:b) s+=x?'1':'0'; return s; }
static std::string str(const BitVector &b) { std::string s; for (size_t i=0;i<b.size();i++) s+=b.bit(i)?'1':'0'; return s; }
// A bit vector which is a window into a larger one; everything outside the window must stay as it is.
struct Win {
	BitVector whole; size_t off, n; Bits m; bool direct;
	Win(Ctx &c, size_t n_) : whole(), off(0), n(n_) { direct=c.rng.chance(1,3); off=direct?0:c.rng.below(20); size_t tail=direct?0:c.rng.below(20); size_t tot=off+n+tail;
		BitVector w(tot); int p=c.rng.below(4); for (size_t i=0;i<tot;i++) { int b=p==0?0:p==1?1:(int)c.rng.below(2); w[i]=b; m.push_back(b); } whole.clone(w); }
	BitVector view() { return whole.segment(off,n); }
	Bits sub() const { return Bits(m.begin()+off,m.begin()+off+n); }
	void put(const Bits &b) { for (size_t i=0;i<n;i++) m[off+i]=b[i]; }
	bool ok(Ctx &c, const char *key, const std::string &what) { std::string g=str(whole), w=str(m); bool raw=true; for (size_t i=0;i<m.size();i++) if (whole[i]!=0&&whole[i]!=1) raw=false;
		if (g!=w || !raw) { c.fail(key,what+fmt(" window %zu+%zu: got %s expected %s%s",off,n,g.c_str(),w.c_str(),raw?"":" (bits other than 0/1)")); return false; } return true; }
};
static uint64_t msb(const Bits &b, size_t i, unsigned len) { uint64_t v=0; for (unsigned k=0;k<len;k++) v=v*2+b[i+k]; return v; }
static uint64_t lsb(const Bits &b, size_t i, unsigned len) { uint64_t v=0; for (unsigned k=0;k<len;k++) v|=(uint64_t)b[i+k]<<k; return v; }
static unsigned pickLen(Rng &r, size_t max) { unsigned l; switch (r.below(5)) { case 0: l=r.below(9); break; case 1: { static const unsigned e[]={1,7,8,9,15,16,17,31,32,33,63,64}; l=e[r.below(12)]; break; } default: l=r.range(1,64); } return l>max?max:l; }
static uint64_t pickVal(Rng &r) { switch (r.below(6)) { case 0: return ~0ULL; case 1: return 1ULL<<r.below(64); case 2: return 0; case 3: return r.below(256); default: return r.next(); } }

SCENARIO(bit_fields)
{
	size_t n=stretch(c.rng,c.rng.chance(1,8)?c.rng.range(1,8):c.rng.range(1,200)); Win w(c,n); size_t cur=0; 
	for (int it=0;it<60;it++) { unsigned len=pickLen(c.rng,n); if (!len) len=1; size_t at=c.rng.chance(1,6)?n-len:c.rng.range(0,n-len); int op=c.rng.below(10); Bits b=w.sub(); BitVector v=w.view(); uint64_t val=pickVal(c.rng); std::string d=fmt("op %d at %zu length %u value %llx",op,at,len,(unsigned long long)val);
		size_t idx=at; uint64_t g=0,e=0; bool rd=false; size_t wantIdx=at;
		switch (op) {
		case 0: g=v.peekField(at,len); e=msb(b,at,len); rd=true; break;
		case 1: g=v.peekFieldReversed(at,len); e=lsb(b,at,len); rd=true; break;
		case 2: g=v.readField(idx,len); e=msb(b,at,len); rd=true; wantIdx=at+len; break;
		case 3: g=v.readFieldReversed(idx,len); e=lsb(b,at,len); rd=true; wantIdx=at+len; break;
		case 4: v.fillField(at,val,len); for (unsigned k=0;k<len;k++) b[at+k]=(val>>(len-1-k))&1; break;
		case 5: v.fillFieldReversed(at,val,len); for (unsigned k=0;k<len;k++) b[at+k]=(val>>k)&1; break;
		case 6: v.writeField(idx,val,len); for (unsigned k=0;k<len;k++) b[at+k]=(val>>(len-1-k))&1; wantIdx=at+len; break;
		case 7: v.writeFieldReversed(idx,val,len); for (unsigned k=0;k<len;k++) b[at+k]=(val>>k)&1; wantIdx=at+len; break;
		case 8: if (cur>=n) cur=0; { size_t was=cur; bool one=val&1; if (one) v.write1(cur); else v.write0(cur); b[was]=one; if (cur!=was+1) { c.fail("bits:cursor",d+fmt(" write0/1 moved the cursor from %zu to %zu",was,cur)); return; } } break;
		case 9: { int k=at; v.settfb(k,val&1); b[k]=val&1; g=v.bit(k); e=val&1; rd=true; } break; }
		if (rd && g!=e) { c.fail("bits:read",d+fmt(" of %s: got %llx expected %llx",str(b).c_str(),(unsigned long long)g,(unsigned long long)e)); return; }
		if (idx!=wantIdx) { c.fail("bits:cursor",d+fmt(" cursor %zu expected %zu",idx,wantIdx)); return; }
		// zero length accesses change nothing
		if (c.rng.chance(1,10)) { size_t z=at; v.writeField(z,val,0); v.writeFieldReversed(z,val,0); v.fillField(at,val,0); v.fillFieldReversed(at,val,0); if (z!=at || v.readField(z,0)!=0 || z!=at) { c.fail("bits:zerolen",d); return; } }
		w.put(b); if (!w.ok(c,"bits:write",d)) return; c.count("field_ops"); c.cover(fmt("%d/%u/%zu/%zu",op,len,at%8,w.off%8)); }
	// whole-vector operations
	BitVector v=w.view(); Bits b=w.sub(); unsigned ones=0; for (int x:b) ones+=x;
	if (v.sum()!=ones) c.fail("bits:sum",fmt("%u ones counted, %u present",v.sum(),ones));
	std::ostringstream os; os<<v; if (os.str()!=str(b)) c.fail("bits:print","printed "+os.str()+" expected "+str(b));
	BitVector r(str(b).c_str()); if (!(r==v) || r.size()!=n) c.fail("bits:parse","bit string does not read back equal");
	size_t k=c.rng.below(n); r[k]=!r[k]; if (r==v) c.fail("bits:eq",fmt("vectors differing in bit %zu compare equal",k)); r[k]=!r[k];
	BitVector longer(r,BitVector("0")); if (longer==v || v==longer) c.fail("bits:eqlen","vectors of different length compare equal");
	v.invert(); for (int &x:b) x=!x; w.put(b); w.ok(c,"bits:invert","invert");
	if (c.rng.chance(1,4)) { v.zero(); for (int &x:b) x=0; w.put(b); w.ok(c,"bits:zero","zero"); }
	if (c.caseNo<3) c.sample(fmt("60 field accesses in a window of %zu bits at offset %zu, final %s",n,w.off,str(w.sub()).c_str()));
}

// long vectors
SCENARIO(bit_long)
{
	Rng &r=c.rng; size_t n=r.range(60000,r.chance(1,3)?400000:140000); BitVector v(n); std::vector<char> b(n); unsigned ones=0; bool dense=r.chance(1,2); for (size_t i=0;i<n;i++) { b[i]=dense?!r.chance(1,1000):r.next()&1; v[i]=b[i]; ones+=b[i]; } if (v.sum()!=ones) c.fail("bits:sum",fmt("%u ones counted in %zu bits, %u present",v.sum(),n,ones));
	size_t p=r.below(n-64); uint64_t w=0; for (int i=0;i<64;i++) w=w*2+b[p+i]; if (v.peekField(p,64)!=w) c.fail("bits:read",fmt("64 bits at %zu",p)); size_t wp=p; v.writeField(wp,w^5,64); if (v.peekField(p,64)!=(w^5)||wp!=p+64) c.fail("bits:write",fmt("64 bits at %zu",p)); v.fillField(p,w,64);
	std::string s=v.packToString(); if (s.size()!=(n+7)/8) c.fail("pack:string","length"); else for (size_t i=0;i<n;i++) if ((((unsigned char)s[i/8]>>(7-i%8))&1)!=b[i]) { c.fail("pack:bytes",fmt("bit %zu of %zu",i,n)); break; } BitVector u(n); u.unpack((const unsigned char*)s.data()); if (!(u==v)) c.fail("pack:roundtrip",fmt("%zu bits",n)); std::string hx=v.hexstr(); if (hx.size()!=n/4) c.fail("hex:dump",fmt("%zu digits for %zu bits",hx.size(),n));
	std::vector<unsigned> pu; for (size_t i=0;i<n;i++) if (r.chance(1,900)||(i>n-40&&r.chance(1,3))||(i>65000&&i<66000&&r.chance(1,9))) pu.push_back(i); BitVector d(n-pu.size()); v.copyPunctured(d,pu.data(),pu.size()); size_t q=0,k=0; for (size_t i=0;i<n;i++) { if (q<pu.size()&&pu[q]==i) { q++; continue; } if (d.bit(k++)!=b[i]) { c.fail("puncture",fmt("%zu of %zu bits removed: bit %zu",pu.size(),n,i)); break; } }
	std::vector<unsigned> mp(n); for (size_t i=0;i<n;i++) mp[i]=i; for (size_t i=n-1;i>0;i--) std::swap(mp[i],mp[r.below(i+1)]); BitVector m(n), x(n); v.map(&mp[0],n,m); for (size_t i=0;i<n;i++) if (m.bit(i)!=b[mp[i]]) { c.fail("map",fmt("bit %zu of %zu",i,n)); break; } m.unmap(&mp[0],n,x); if (!(x==v)) c.fail("map:inverse",fmt("%zu bits",n));
	c.count("long_vectors"); c.cover(fmt("%zu.%u",n,ones));
}
SCENARIO(bit_pack)
{
	size_t n=stretch(c.rng,c.rng.chance(1,6)?c.rng.range(0,9):c.rng.range(1,300)); Win w(c,n); BitVector v=w.view(); Bits b=w.sub(); size_t nb=(n+7)/8;
	std::string want(nb,0); for (size_t i=0;i<n;i++) if (b[i]) want[i/8]|=0x80>>(i%8);
	{ std::vector<unsigned char> buf(nb+8,0xA5); v.pack(&buf[4]); std::string g((char*)&buf[4],nb); if (g!=want) c.fail("pack:bytes",fmt("%zu bits pack to %s expected %s",n,quote(g).c_str(),quote(want).c_str())); for (int i=0;i<4;i++) if (buf[i]!=0xA5||buf[nb+4+i]!=0xA5) c.fail("pack:overrun",fmt("%zu bits: byte outside the packed area written",n)); }
	{ unsigned char *ex=(unsigned char*)malloc(nb?nb:1); v.pack(ex); free(ex); std::string s=v.packToString(); if (s!=want) c.fail("pack:string",fmt("%zu bits pack to string %s expected %s",n,quote(s).c_str(),quote(want).c_str())); }
	c.count("packs");
	{ std::string src(nb,0); for (char &x:src) x=c.rng.next(); Bits e(n); for (size_t i=0;i<n;i++) e[i]=((unsigned char)src[i/8]>>(7-i%8))&1; unsigned char *ex=(unsigned char*)malloc(nb?nb:1); memcpy(ex,src.data(),nb); v.unpack(ex); free(ex); w.put(e); b=e; if (!w.ok(c,"unpack",fmt("unpack of %s",quote(src).c_str()))) return;
	  // round trip, last byte zero filled
	  std::string g=v.packToString(), m=src; if (n%8) m[nb-1]&=(char)(0xff<<(8-n%8)); if (g!=m) c.fail("pack:roundtrip",fmt("%zu bits",n)); }
	// byte reversal
	{ BitVector x; x.clone(v); x.LSB8MSB(); Bits e=b; for (size_t i=0;i+8<=n;i+=8) for (int k=0;k<8;k++) e[i+k]=b[i+7-k]; if (str(x)!=str(e)) c.fail("lsb8msb",fmt("%zu bits %s gave %s",n,str(b).c_str(),str(x).c_str())); v.LSB8MSB(); w.put(e); w.ok(c,"lsb8msb:inplace","byte reversal"); v.LSB8MSB(); w.put(b); w.ok(c,"lsb8msb:twice","byte reversal twice"); 
	  if (n>=8) { BitVector y; y.clone(v); y.reverse8(); Bits z=b; for (int k=0;k<8;k++) z[k]=b[7-k]; if (str(y)!=str(z)) c.fail("reverse8",str(b)+" gave "+str(y)); } }
	// hex dumps of whole digits
	size_t hn=n/4*4; BitVector h=w.whole.segment(w.off,hn); std::string hx; for (size_t i=0;i<hn;i+=4) hx+="0123456789abcdef"[msb(b,i,4)];
	{ std::string g=h.hexstr(); if (g!=hx) c.fail("hex:dump",fmt("%s dumped as %s expected %s",str(b).c_str(),g.c_str(),hx.c_str())); std::ostringstream os; h.hex(os); os<<10; if (os.str()!=hx+"10") c.fail("hex:stream","stream dump "+os.str()); }
	{ std::string src; Bits e; for (size_t i=0;i<hn;i+=4) { int d=c.rng.below(16); src+=c.rng.chance(1,2)?"0123456789abcdef"[d]:"0123456789ABCDEF"[d]; for (int k=3;k>=0;k--) e.push_back((d>>k)&1); }
	  char *ex=strdup(src.c_str()); bool r=h.unhex(ex); free(ex); Bits all=b; for (size_t i=0;i<hn;i++) all[i]=e[i]; w.put(all); if (!r) c.fail("unhex:refused","valid hex refused: "+src); w.ok(c,"unhex:bits","unhex of "+src); std::string lo; for (char x:src) lo+=tolower(x); if (h.hexstr()!=lo) c.fail("hex:roundtrip",src);
	  if (hn) { // one bad digit or a string which is too short is an error
		std::string bad=src; size_t k=c.rng.below(bad.size()); static const char nd[]="gGzZ -+.x/:@`~\n\t_"; bool cut=c.rng.chance(1,3); if (cut) bad.resize(k); else bad[k]=nd[c.rng.below(sizeof nd-1)]; BitVector t(hn); ex=strdup(bad.c_str()); bool rr=t.unhex(ex); free(ex); if (rr) c.fail(cut?"unhex:short":isspace(bad[k])?"unhex:space":"unhex:bad",fmt("%s accepted for %zu bits",quote(bad).c_str(),hn)); c.count("bad_hex"); } }
	// lengths which are no whole number of digits: the last digit gives the rest, from one of its ends
	if (n%4) { std::string src; for (size_t i=0;i<n;i+=4) src+="0123456789abcdefABCDEF"[c.rng.below(22)]; BitVector t(n); t.zero(); char *ex=strdup(src.c_str()); bool ok=t.unhex(ex); free(ex); Bits lo,hi; size_t rem=n%4; for (size_t i=0;i<src.size();i++) { int d=(int)strtol(src.substr(i,1).c_str(),NULL,16); if (i+1<src.size()) for (int k=3;k>=0;k--) { lo.push_back((d>>k)&1); hi.push_back((d>>k)&1); } else for (size_t k=0;k<rem;k++) { lo.push_back((d>>(rem-1-k))&1); hi.push_back((d>>(3-k))&1); } } if (!ok) c.fail("unhex:refused","valid hex refused: "+src); else if (str(t)!=str(lo)&&str(t)!=str(hi)) c.fail("unhex:rest",fmt("%s for %zu bits read as %s",src.c_str(),n,str(t).c_str())); std::string bad=src; if (c.rng.chance(1,2)) bad.pop_back(); else bad.back()="gZ -\n"[c.rng.below(5)]; ex=strdup(bad.c_str()); if (t.unhex(ex)) c.fail("unhex:bad",fmt("%s accepted for %zu bits",quote(bad).c_str(),n)); free(ex); }
	c.count("hexes"); c.cover(fmt("%zu/%zu",n,w.off%8)); if (c.caseNo<3) c.sample(fmt("%zu bits, packed %s",n,quote(want).c_str()));
}

// remainder of a bit string (highest power first) modulo a polynomial of the given degree, schoolbook division
static Bits polyMod(Bits a, const Bits &p) { size_t d=p.size()-1; for (size_t i=0;i+d<a.size();i++) if (a[i]) for (size_t k=0;k<=d;k++) a[i+k]^=p[k]; return Bits(a.end()-d,a.end()); }
static uint64_t num(const Bits &b) { return msb(b,0,b.size()); }
SCENARIO(bit_parity)
{
	static const struct { uint64_t c; unsigned n; } known[]={{0x10004820009ULL,40},{0x0b,3},{0x6f,6},{0x1021,16},{0x11021,16},{0x04c11db7,32},{0x7,8},{0x575,10},{0x9,3},{0x35,6}};
	uint64_t co; unsigned d; if (c.rng.chance(1,3)) { int i=c.rng.below(10); co=known[i].c; d=known[i].n; } else { d=c.rng.chance(1,8)?c.rng.range(60,63):c.rng.range(1,48); co=c.rng.next()&((1ULL<<d)-1); if (c.rng.chance(1,2)) co|=1; if (c.rng.chance(1,2)) co|=1ULL<<d; }
	Bits p(d+1); p[0]=1; for (unsigned i=0;i<d;i++) p[d-i]=(co>>i)&1;
	size_t k=c.rng.chance(1,6)?c.rng.range(0,4):stretch(c.rng,c.rng.range(1,250)); Win data(c,k); Win code(c,k+d); Parity par(co,d,k+d); if (par.size()!=d) c.fail("parity:size","wrong register length");
	for (int rep=0;rep<3;rep++) {
		BitVector dv=data.view(), cv=code.view(); Bits m=data.sub(); Bits sh=m; sh.resize(k+d,0); Bits r=k?polyMod(sh,p):Bits(d,0); 
		if (dv.parity(par)!=num(r)) { c.fail("parity:word",fmt("polynomial %llx degree %u data %s: parity %llx expected %llx",(unsigned long long)co,d,str(m).c_str(),(unsigned long long)dv.parity(par),(unsigned long long)num(r))); return; }
		bool inv=c.rng.chance(1,2); BitVector pt=cv.tail(k); if (!inv && c.rng.chance(1,2)) par.writeParityWord(dv,pt,false); else if (!inv) par.writeParityWord(dv,pt,inv); else if (c.rng.chance(1,2)) par.writeParityWord(dv,pt); else par.writeParityWord(dv,pt,true);
		Bits e=code.sub(); for (unsigned i=0;i<d;i++) e[k+i]=r[i]^inv; code.put(e); if (!code.ok(c,"parity:write",fmt("polynomial %llx degree %u invert %d data %s",(unsigned long long)co,d,inv,str(m).c_str()))) return;
		dv.copyTo(cv); for (size_t i=0;i<k;i++) e[i]=m[i]; code.put(e);
		// syndrome of a correct codeword; then of damaged ones
		for (int dmg=0;dmg<4;dmg++) { Bits x=code.sub(); if (dmg) { int flips=dmg==1?1:dmg==2?2:c.rng.range(1,x.size()); for (int f=0;f<flips;f++) { size_t q=c.rng.below(x.size()); x[q]^=1; } } BitVector y(str(x).c_str()); uint64_t s=par.syndrome(y), w=num(polyMod(x,p)); uint64_t s2=y.syndrome(par);
			if (s!=w || s2!=w) { c.fail("parity:syndrome",fmt("polynomial %llx degree %u word %s: syndrome %llx expected %llx",(unsigned long long)co,d,str(x).c_str(),(unsigned long long)s,(unsigned long long)w)); return; }
			if (!dmg && s!=(inv?(d==64?~0ULL:(1ULL<<d)-1):0)) { bool zero=true; if (!inv) c.fail("parity:valid","valid codeword has a nonzero syndrome"); (void)zero; }
			c.count("syndromes"); }
		c.count("parities"); c.coverHash(hash64(str(m))^co); Bits nb(k); for (auto &x:nb) x=c.rng.below(2); data.put(nb); BitVector nv(str(nb).c_str()); for (size_t i=0;i<k;i++) dv[i]=nb[i]; }
	if (c.caseNo<3) c.sample(fmt("polynomial %llx degree %u, %zu data bits",(unsigned long long)co,d,k));
}

SCENARIO(bit_maps)
{
	size_t n=stretch(c.rng,c.rng.range(1,200)); Win w(c,n); BitVector v=w.view(); Bits b=w.sub(); Rng &r=c.rng;
	// a permutation, then a partial map
	std::vector<unsigned> pm(n); for (size_t i=0;i<n;i++) pm[i]=i; for (size_t i=n;i>1;i--) std::swap(pm[i-1],pm[r.below(i)]);
	{ Win d(c,n); BitVector dv=d.view(); v.map(&pm[0],n,dv); Bits e(n); for (size_t i=0;i<n;i++) e[i]=b[pm[i]]; d.put(e); d.ok(c,"map",fmt("permutation of %zu bits",n)); BitVector back(n); dv.unmap(&pm[0],n,back); if (str(back)!=str(b)) c.fail("map:inverse",fmt("%zu bits: unmap does not undo map",n)); Bits u(n); BitVector uv(n); v.unmap(&pm[0],n,uv); for (size_t i=0;i<n;i++) u[pm[i]]=b[i]; if (str(uv)!=str(u)) c.fail("unmap",fmt("%zu bits",n)); }
	{ size_t k=r.range(0,n); Win d(c,n); BitVector dv=d.view(); v.map(&pm[0],k,dv); Bits e=d.sub(); for (size_t i=0;i<k;i++) e[i]=b[pm[i]]; d.put(e); d.ok(c,"map:partial",fmt("%zu of %zu",k,n)); Win d2(c,n); BitVector dv2=d2.view(); v.unmap(&pm[0],k,dv2); e=d2.sub(); for (size_t i=0;i<k;i++) e[pm[i]]=b[i]; d2.put(e); d2.ok(c,"unmap:partial",fmt("%zu of %zu",k,n)); }
	// a map may take the same bit several times
	{ size_t k=r.range(1,3*n+3); std::vector<unsigned> mp; if (n) { for (size_t i=0;i<k;i++) mp.push_back(i&&r.chance(1,3)?mp.back():r.below(n)); BitVector dv(k); v.map(&mp[0],k,dv); Bits e; for (size_t i=0;i<k;i++) e.push_back(b[mp[i]]); if (str(dv)!=str(e)) c.fail("map:repeated",fmt("%zu bits from %zu",k,n)); } }
	// puncturing
	{ std::vector<unsigned> pu; int dens=r.below(100); for (size_t i=0;i<n;i++) if ((int)r.below(100)<dens) pu.push_back(i); if (r.chance(1,5)) pu.assign(1,n-1); if (r.chance(1,5)) pu.assign(1,0);
	  Win d(c,n-pu.size()); BitVector dv=d.view(); std::vector<unsigned> ex(pu); v.copyPunctured(dv,ex.data(),ex.size()); Bits e; size_t q=0; for (size_t i=0;i<n;i++) { if (q<pu.size()&&pu[q]==i) q++; else e.push_back(b[i]); } d.put(e); d.ok(c,"puncture",fmt("%zu of %zu bits removed",pu.size(),n));
	  w.ok(c,"puncture:source","puncturing");
	  size_t m=n-pu.size(); SoftVector s(m); std::vector<float> sv; for (size_t i=0;i<m;i++) { s[i]=r.unit(); sv.push_back(s[i]); } SoftVector big(n+6); for (size_t i=0;i<n+6;i++) big[i]=7; SoftVector t=big.segment(3,n); s.copyUnPunctured(t,ex.data(),ex.size());
	  q=0; size_t k=0; for (size_t i=0;i<n;i++) { float wv; if (q<pu.size()&&pu[q]==i) { q++; wv=0.5; } else wv=sv[k++]; if (t.softbit(i)!=wv) { c.fail("unpuncture",fmt("%zu of %zu inserted: sample %zu is %g expected %g",pu.size(),n,i,t.softbit(i),wv)); break; } } for (int i=0;i<3;i++) if (big[i]!=7||big[n+3+i]!=7) c.fail("unpuncture:overrun","sample outside the destination written");
	  c.cover(fmt("p%zu/%zu",n,pu.size())); c.count("punctures"); }
}

SCENARIO(bit_soft)
{
	size_t n=stretch(c.rng,c.rng.range(1,150)); Win w(c,n); BitVector v=w.view(); Bits b=w.sub(); Rng &r=c.rng;
	SoftVector s(v); if (s.size()!=n) c.fail("soft:size","size"); for (size_t i=0;i<n;i++) if (s.softbit(i)!=(b[i]?1.0f:0.0f) || s.bit(i)!=(bool)b[i]) { c.fail("soft:frombits",fmt("bit %zu",i)); break; }
	{ BitVector x=s.sliced(); if (str(x)!=str(b)) c.fail("soft:roundtrip","slicing does not return the bits"); }
	int mode=r.below(6); size_t pure=r.chance(1,3)?r.below(n+1):0, pureEnd=r.chance(1,5)?r.below(n+1):n; Bits e(n); std::string pr; double en=0,lo=1,ns=0; 
	for (size_t i=0;i<n;i++) { float f; switch (mode) { case 0: f=r.unit(); break; case 1: f=0.5f; break; case 2: { static const float q[]={0.25f,0.75f,0.5f,0.0f,1.0f}; f=q[r.below(5)]; break; } case 3: f=std::nextafterf(r.chance(1,3)?0.5f:r.chance(1,2)?0.25f:0.75f,r.below(2)?2.0f:-2.0f); break; case 4: f=b[i]?1-r.unit()*0.02:r.unit()*0.02; break; default: f=b[i]; } if (i<pure || i>=pureEnd) f=b[i];	// noiseless at the beginning or end
		if (r.chance(1,2)) s.settfb(i,f); else s[i]=f; e[i]=f>0.5f; pr+=f<0.25?'0':f>0.75?'1':'-'; double k=2*std::fabs((double)f-0.5); lo=std::min(lo,k); en+=k; double nn=f<0.5?f:1.0-f; ns+=nn*nn; if (s.softbit(i)!=f || s.bit(i)!=(f>0.5f)) { c.fail("soft:value",fmt("sample %zu",i)); return; } }
	{ BitVector x=s.sliced(); if (str(x)!=str(e)) c.fail("soft:slice","sliced "+str(x)+" expected "+str(e)); std::ostringstream os; os<<s; if (os.str()!=pr) c.fail("soft:print","printed "+os.str()+" expected "+pr); }
	float low=-1; double g=s.getEnergy(&low); if (std::fabs(g-en/n)>1e-3 || std::fabs(low-lo)>1e-5 || std::fabs(s.getEnergy()-g)>1e-6) c.fail("soft:energy",fmt("energy %g low %g expected %g low %g (%zu samples)",g,low,en/n,lo,n));
	double snr=s.getSNR(), sg=0.25*n; if (std::fabs(ns*1000-sg)>1e-3*sg) { double want=ns*1000<sg?999:sg/ns; if (std::fabs(snr-want)>1e-3*want+1e-3) c.fail("soft:snr",fmt("SNR %g expected %g",snr,want)); }
	// windows share, const windows and copies follow the container rules
	size_t a=r.below(n), k=r.range(0,n-a); { SoftVector win=s.segment(a,k); std::vector<float> old; for (size_t i=0;i<n;i++) old.push_back(s[i]); for (size_t i=0;i<k;i++) win.settfb(i,3.25f); for (size_t i=0;i<n;i++) { float wv=i>=a&&i<a+k?3.25f:old[i]; if (s[i]!=wv) { c.fail("soft:window",fmt("sample %zu after writing window %zu+%zu",i,a,k)); break; } } }
	{ SoftVector h=s.head(a), t=s.tail(a); if (h.size()!=a || t.size()!=n-a) c.fail("soft:headtail","sizes"); t.unknown(); for (size_t i=a;i<n;i++) if (s[i]!=0.5f) { c.fail("soft:unknown",fmt("sample %zu",i)); break; } }
	c.count("soft_vectors"); c.coverHash(hash64(pr));
}
