// Encodings, string utilities, key-value texts, scalar wrappers.
#include "common.h"
#include "leak.h"
#include "URLEncode.h"
#include "Utils.h"
#include "Regexp.h"
#include "ScalarTypes.h"
#include "MemoryLeak.h"
#include <math.h>
#include <algorithm>
#include <memory>
#include <atomic>
using namespace rt;
ConfigurationTable gConfig;
typedef std::string S;
static S bytes(Rng &r, int n) { S s; int k=r.below(4); for (int i=0;i<n;i++) s+=k==0?(char)r.below(256):k==1?(char)r.range(32,126):k==2?"\0\xff\x80\n =%+/"[r.below(9)]:(char)r.range(128,255); return s; }
static S plain(Rng &r, int n, const char *extra="") { S s; size_t e=strlen(extra); for (int i=0;i<n;i++) s+=e&&r.chance(1,4)?extra[r.below(e)]:"abcdefghijXYZ0189_-.:"[r.below(21)]; return s; }
// exact-size heap copy, so any access past the end is caught
struct Heap { char *p; size_t n; Heap(const S &s, bool nul) { n=s.size()+nul; p=(char*)malloc(n?n:1); memcpy(p,s.data(),s.size()); if (nul) p[s.size()]=0; } ~Heap() { free(p); } };
static int sizeFor(Rng &r) { return r.chance(1,10)?r.range(200,3000):r.chance(1,3)?r.range(0,6):r.range(0,70); }

static const char *B64="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S b64(const S &s) { S o; unsigned acc=0; int nb=0; for (unsigned char ch:s) { acc=(acc<<8|ch)&0xffffff; nb+=8; while (nb>=6) { nb-=6; o+=B64[acc>>nb&63]; } } if (nb) o+=B64[acc<<(6-nb)&63]; while (o.size()%4) o+='='; return o; }
static S hexs(const S &s) { S o; for (unsigned char ch:s) o+=fmt("%02X",ch); return o; }
static S caseMix(Rng &r, S s) { if (r.chance(1,2)) for (char &ch:s) if (r.chance(1,2)) ch=r.chance(1,2)?toupper(ch):tolower(ch); return s; }
SCENARIO(codec_base)
{
	Rng &r=c.rng; syslogCapture(true); S in=bytes(r,sizeFor(r)); int w=r.below(4); static const char *nm[]={"binary","hex","base16","base64"}; S enc=caseMix(r,nm[w]), err; Heap h(in,false);
	S e=encodeToString(h.p,in.size(),enc,err); S want=w==0?in:w==3?b64(in):hexs(in); if (e!=want||err.size()) c.fail(S("codec:encode:")+nm[w],fmt("%s of %s gave %s expected %s error '%s'",enc.c_str(),quote(in).c_str(),quote(e).c_str(),quote(want).c_str(),err.c_str()));
	// decoding gives the data back, also with white space in between and without padding
	S t=want; bool mixed=false; if (w!=0) { if (w!=3&&r.chance(1,2)) t=caseMix(r,t); if (w==3&&r.chance(1,4)) { while (t.size()&&t.back()=='=') t.pop_back(); } if (r.chance(1,2)) { int k=r.range(1,6); for (int i=0;i<k;i++) t.insert(r.below(t.size()+1),1," \n\t\r"[r.below(4)]); mixed=true; } }
	Heap h2(t,false); S err2; S d=decodeToString(h2.p,t.size(),enc,err2); if (d!=in||err2.size()) c.fail(S("codec:decode:")+nm[w]+(mixed?"-space":""),fmt("%s of %s gave %s expected %s error '%s'",enc.c_str(),quote(t).c_str(),quote(d).c_str(),quote(in).c_str(),err2.c_str()));
	c.count("roundtrips");
	// bad texts are reported
	if (w!=0) { S b=want; while (w==3&&b.size()&&b.back()=='=') b.pop_back(); S err3; static const char *badHex="gGzZ-_.%\x80\xff\x00:@`/", *bad64="-_.%\x80\xff\x00:@`[{!"; int kind=r.below(3); if (kind==2&&(w!=3||!b.size())) kind=0; if (kind==1&&w==3) kind=0; if (kind==0) b.insert(r.below(b.size()+1),1,(w==3?bad64:badHex)[r.below(w==3?14:16)%(w==3?13:15)]); else if (kind==1) { b+="0123456789abcdefABCDEF"[r.below(22)]; } else { S pad="="; if (r.chance(1,3)) pad+="="; for (int i=r.below(3);i>0;i--) pad.insert(r.below(pad.size()+1),1," \n\t\r"[r.below(4)]); b.insert(r.below(b.size()),pad); } if (kind!=1&&r.chance(1,4)) b.insert(r.below(b.size()+1),1," \n\t\r"[r.below(4)]);
		Heap h3(b,false); S d3=decodeToString(h3.p,b.size(),enc,err3); if (err3.empty()) c.fail(fmt("codec:accepted:%s:%d",nm[w],kind),fmt("%s of %s accepted as %s",enc.c_str(),quote(b).c_str(),quote(d3).c_str())); c.count("bad_texts"); }
	static const char *unk[]={"","base65","hexx","utf-8","binar"," hex"}; S u=unk[r.below(6)], e4; S x=r.chance(1,2)?encodeToString(h.p,in.size(),u,e4):decodeToString(h.p,in.size(),u,e4); if (x.size()||e4.empty()) c.fail("codec:unknown","unknown encoding '"+u+"' accepted");
	c.cover(fmt("%d",w)+in); if (c.caseNo<3) c.sample(enc+" "+quote(in,40)+" -> "+quote(e,60));
}
SCENARIO(codec_url)
{
	Rng &r=c.rng; S in=r.chance(1,6)?S(1,(char)r.below(256)):bytes(r,sizeFor(r)); S o=URLEncode(in), want; for (unsigned char ch:in) { if ((ch>='0'&&ch<='9')||(ch>='a'&&ch<='z')||(ch>='A'&&ch<='Z')||(ch&&strchr("-_.!~'()",ch))) want+=ch; else want+=fmt("%%%02X",ch); }
	if (o!=want) c.fail("url:encode",fmt("%s gave %s expected %s",quote(in).c_str(),quote(o).c_str(),quote(want).c_str())); c.cover(in); c.count("encoded"); if (c.caseNo<2) c.sample(quote(in,60)+" -> "+quote(o,80));
}
SCENARIO(str_format)
{
	Rng &r=c.rng; syslogCapture(true); int n=r.chance(1,2)?r.range(190,205):r.chance(1,8)?r.range(4990,5010):r.chance(1,4)?r.range(0,5000):r.range(0,400); S a=plain(r,n,"%\\ \n\xff"), b=plain(r,r.range(0,6)), want; int i1=(int)r.next(), i2=(int)r.below(1000); if (r.chance(1,5)) std::swap(a,b); S g; int k=r.below(19); long l=(long)r.next()>>r.below(64); double d=(r.unit()-0.5)*pow(10,r.range(-12,12)); const char *pa=a.c_str(), *pb=b.c_str(); unsigned long long u=r.next(); char ch=(char)r.range(33,126);
	char *buf=(char*)malloc(20000);
	switch (k) { case 0: g=format("%s",a); snprintf(buf,20000,"%s",a.c_str()); break; case 1: g=format("%s%s",a,b); snprintf(buf,20000,"%s%s",a.c_str(),b.c_str()); break; case 2: g=format("%s,%s,%s",a,b,b); snprintf(buf,20000,"%s,%s,%s",a.c_str(),b.c_str(),b.c_str()); break; case 3: g=format("%s%s%s%s",b,a,b,a); snprintf(buf,20000,"%s%s%s%s",b.c_str(),a.c_str(),b.c_str(),a.c_str()); break; case 4: g=format("%s=%d",a,i1); snprintf(buf,20000,"%s=%d",a.c_str(),i1); break; case 5: g=format("%d %s",i1,a); snprintf(buf,20000,"%d %s",i1,a.c_str()); break; case 6: g=format("%s-%s-%d",a,b,i1); snprintf(buf,20000,"%s-%s-%d",a.c_str(),b.c_str(),i1); break; case 7: g=format("%s%s%d/%d",a,b,i1,i2); snprintf(buf,20000,"%s%s%d/%d",a.c_str(),b.c_str(),i1,i2); break;
	case 8: g=format("%s|%ld",a,l); snprintf(buf,20000,"%s|%ld",pa,l); break; case 9: g=format("%s|%ld",pa,l); snprintf(buf,20000,"%s|%ld",pa,l); break; case 10: g=format("%ld|%s",l,r.chance(1,2)?pa:pa); snprintf(buf,20000,"%ld|%s",l,pa); break; case 11: g=r.chance(1,2)?format("%g|%s",d,a):format("%g|%s",d,pa); snprintf(buf,20000,"%g|%s",d,pa); break; case 12: g=r.chance(1,2)?format("%s|%.9g",b,d):format("%s|%.9g",pb,d); snprintf(buf,20000,"%s|%.9g",pb,d); break;
	case 13: g=r.chance(1,2)?format("%s%s%llu",a,b,u):format("%s%s%llu",pa,pb,u); snprintf(buf,20000,"%s%s%llu",pa,pb,u); break; case 14: g=format("%s%s%ld/%llu",pa,b,l,u); snprintf(buf,20000,"%s%s%ld/%llu",pa,pb,l,u); break; case 15: g=r.chance(1,2)?format("%s %s %ld %d",a,b,l,i1):format("%s %s %ld %d",pa,pb,l,i1); snprintf(buf,20000,"%s %s %ld %d",pa,pb,l,i1); break; case 16: g=r.chance(1,2)?format("%s %c",a,ch):format("%s %c",pa,ch); snprintf(buf,20000,"%s %c",pa,ch); break; case 17: g=format("%s,%s",pa,b); snprintf(buf,20000,"%s,%s",pa,pb); break;
	default: g=r.chance(1,2)?format("%-*s|%5.2f|%lu|%c",n,b.c_str(),i1/3.0,(unsigned long)i2,'x'):format1("%-*s|%5.2f|%lu|%c",n,b.c_str(),i1/3.0,(unsigned long)i2,'x'); snprintf(buf,20000,"%-*s|%5.2f|%lu|%c",n,b.c_str(),i1/3.0,(unsigned long)i2,'x'); }
	want=buf; if (want.size()>5000) want.resize(5000); if (g!=want) c.fail("format:text",fmt("form %d: result of %d characters, expected %d; ends %s expected %s",k,(int)g.size(),(int)want.size(),quote(g.size()>10?g.substr(g.size()-10):g).c_str(),quote(want.size()>10?want.substr(want.size()-10):want).c_str())); c.count("formatted");
	{ int m=r.chance(1,2)?r.range(285,310):r.range(0,600); S x=plain(r,m,"%"); std::ostringstream os; os<<"<"; std::ostream &ret=osprintf(os,"%s",x.c_str()); ret<<">"; S w=x.size()<=295?x:x.substr(0,296)+"..."; if (os.str()!="<"+w+">") c.fail("format:stream",fmt("%d characters printed as %d",m,(int)os.str().size()-2)); }
	free(buf); c.cover(fmt("%d.%d.%d",k,(int)a.size(),(int)b.size())); 
}
static std::vector<S> words(const S &s, const char *sp) { std::vector<S> v; S w; bool in=false; for (char ch:s) { if (strchr(sp,ch)&&ch) { if (in) v.push_back(w); w=""; in=false; } else { w+=ch; in=true; } } if (in) v.push_back(w); return v; }
SCENARIO(str_split)
{
	Rng &r=c.rng; S s; int nw=r.chance(1,6)?r.range(30,120):r.range(0,8); for (int i=0;i<nw;i++) { int g=r.range(i?1:0,r.chance(1,3)?4:i?1:0); for (int k=0;k<g;k++) s+=" \t\r\n"[r.chance(1,3)?r.below(4):0]; s+=plain(r,r.range(1,r.chance(1,8)?60:6),"\xe9,=/"); } if (r.chance(1,3)) s+=r.chance(1,2)?" ":"\n ";
	{ S x=s; for (char &ch:x) if (r.chance(1,12)) ch="\v\f\x85\xa0"[r.below(4)]; std::vector<S> o, w=words(x," \t\r\n"); { Heap h(x,true); stringSplit(o,h.p); } if (o!=w) c.fail("split:words",fmt("%s split into %d words, expected %d",quote(x).c_str(),(int)o.size(),(int)w.size())); Heap h(x,true); std::vector<char*> av(w.size()+1,(char*)1); int n=cstrSplit(h.p,av.data(),w.size()+1); bool ok=n==(int)w.size(); for (int i=0;ok&&i<n;i++) ok=w[i]==av[i]; if (!ok) c.fail("split:argv",fmt("%s: %d arguments expected %d",quote(x).c_str(),n,(int)w.size())); }
	std::vector<S> w=words(s," \t\r\n"), pre; bool had=r.chance(1,4); if (had) pre.push_back("pre"); std::vector<S> o=pre; { Heap h(s,true); stringSplit(o,h.p); } std::vector<S> want=pre; want.insert(want.end(),w.begin(),w.end()); if (o!=want) c.fail("split:words",fmt("%s split into %d words, expected %d",quote(s).c_str(),(int)o.size(),(int)want.size()));
	// in place, any separators, more room than words
	{ const char *sp=r.chance(1,2)?NULL:r.chance(1,2)?",":" ,="; std::vector<S> ww=words(s,sp?sp:" \t\r\n"); int room=ww.size()+r.range(1,3); Heap h(s,true); std::vector<char*> av(room,(char*)1); int n=cstrSplit(h.p,av.data(),room,sp); bool ok=n==(int)ww.size(); for (int i=0;ok&&i<n;i++) ok=ww[i]==av[i]&&av[i]>=h.p&&av[i]<h.p+h.n; for (int i=n;i<room;i++) if (av[i]!=(char*)1) ok=false; if (!ok) c.fail("split:argv",fmt("%s with separators %s: %d arguments expected %d",quote(s).c_str(),sp?sp:"(space)",n,(int)ww.size()));
	  if (ww.size()>=2) { int mx=r.range(1,ww.size()-1); Heap h5(s,true); std::vector<char*> bv(mx+1,(char*)1); int m=cstrSplit(h5.p,bv.data(),mx,sp); bool k=m==mx&&bv[mx]==(char*)1; for (int i=0;k&&i<m-1;i++) k=ww[i]==bv[i]; if (k&&m) k=S(bv[m-1]).compare(0,ww[m-1].size(),ww[m-1])==0; if (!k) c.fail("split:limit",fmt("%s with at most %d arguments: %d",quote(s).c_str(),mx,m)); } }
	{ Heap h(s,true); for (int nth=1;nth<=(int)w.size()+2&&nth<50;nth++) { unsigned len=12345; char *p=cstrGetArg(h.p,nth,&len); bool ok=nth<=(int)w.size()?p&&p>=h.p&&p+len<h.p+h.n+1&&S(p,len)==w[nth-1]:!p; if (!ok) c.fail("split:nth",fmt("argument %d of %s is %s",nth,quote(s).c_str(),p?quote(S(p,std::min(len,60u))).c_str():"none")); } }
	c.count("words",w.size()); c.cover(s); if (c.caseNo<2) c.sample(quote(s,80));
}
SCENARIO(str_replace)
{
	Rng &r=c.rng; syslogCapture(true); int al=r.range(1,3); auto rnd=[&](int n) { S s; for (int i=0;i<n;i++) s+=(char)('a'+r.below(al)); return s; }; S in=rnd(r.chance(1,8)?r.range(100,2000):r.range(0,20)), se=rnd(r.chance(1,12)?0:r.range(1,3)), re=r.chance(1,3)?se+rnd(r.below(3)):rnd(r.below(4)); if (r.chance(1,6)) re="";
	S want; if (se.empty()) want=in; else for (size_t i=0;i<in.size();) { if (in.compare(i,se.size(),se)==0) { want+=re; i+=se.size(); } else want+=in[i++]; }
	S g=replaceAll(in,se,re); if (g!=want) c.fail("replace:text",fmt("replacing %s by %s in %s gave %s expected %s",quote(se).c_str(),quote(re).c_str(),quote(in).c_str(),quote(g).c_str(),quote(want).c_str())); for (auto &l:syslogTake()) if (l.text.find("replaceAll")!=S::npos) c.fail("replace:log","an ordinary replacement logged an error"); c.count("replaced");
	std::vector<S> p; int k=r.range(2,7); S cat; for (int i=0;i<k;i++) { p.push_back(bytes(r,r.below(30))); cat+=p.back(); } S o=k==2?stringcat(p[0],p[1]):k==3?stringcat(p[0],p[1],p[2]):k==4?stringcat(p[0],p[1],p[2],p[3]):k==5?stringcat(p[0],p[1],p[2],p[3],p[4]):k==6?stringcat(p[0],p[1],p[2],p[3],p[4],p[5]):stringcat(p[0],p[1],p[2],p[3],p[4],p[5],p[6]); if (o!=cat) c.fail("concat",fmt("concatenation of %d strings differs",k));
	S text; int nl=r.range(0,5); for (int i=0;i<nl;i++) text+=plain(r,r.below(5))+"\n"; if (r.chance(1,2)) text+=plain(r,r.below(5)); int n=r.range(1,6); size_t pos=0; for (int i=0;i<n&&pos<text.size();i++) { size_t q=text.find('\n',pos); pos=q==S::npos?text.size():q+1; } if (firstlines(text,n)!=text.substr(0,pos)) c.fail("firstlines",fmt("first %d lines of %s: %s",n,quote(text).c_str(),quote(firstlines(text,n)).c_str()));
	c.cover(in+"|"+se+"|"+re);
}
struct Shown : Text2Str { S s; void text(std::ostream &os) const { os<<s; } };
SCENARIO(str_num)
{
	Rng &r=c.rng; { S t=bytes(r,r.below(40)); std::ostringstream in, os; in<<t; os<<"<"<<in<<">"; if (os.str()!="<"+t+">") c.fail("text:stream","a string stream prints something else than its text"); Shown x; x.s=t; std::ostringstream o2; const Text2Str *p=&x, *none=NULL; o2<<p<<"|"<<none; if (x.str()!=t||o2.str()!=t+"|(null)") c.fail("text:object","an object's text differs from what it prints"); } uint64_t h=r.chance(1,4)?r.below(20):r.next()>>r.below(64), l=r.chance(1,4)?r.below(20):r.next()>>r.below(64); S s=uintToString(h,l); if (s!=fmt("%016llx%016llx",(unsigned long long)h,(unsigned long long)l)) c.fail("num:text128",s); uint64_t h2=1,l2=1; S t=r.chance(1,2)?caseMix(r,s):s; stringToUint(t,&h2,&l2); if (h2!=h||l2!=l) c.fail("num:parse128",fmt("%s parsed as %llx %llx",t.c_str(),(unsigned long long)h2,(unsigned long long)l2)); uint32_t x=h; if (uintToString(x)!=fmt("%08x",x)) c.fail("num:text32",uintToString(x));
	int a=1+(h>>r.below(64))%0x7ffffffe, b=1+(l>>r.below(64))%0x7ffffffe; if (r.chance(1,3)) b=a; if (r.chance(1,3)) { int m=1+r.below(1000); a=1+r.below(2000000); b=1+r.below(2000000); a*=m; b*=m; } int u=a,v=b; while (v) { int q=u%v; u=v; v=q; } if (gcd(a,b)!=u) c.fail("num:gcd",fmt("gcd(%d,%d)=%d",a,b,gcd(a,b)));
	// time text on a chosen clock
	int64_t us=(int64_t)r.below(2000000000ULL)*1000000+r.below(1000000); if (r.chance(1,3)) us-=us%1000000-(r.chance(1,2)?999999:0); vclockSet(us); time_t sec=us/1000000; struct tm tm; gmtime_r(&sec,&tm); S full=fmt(" %04d-%02d-%02dT%02d:%02d:%02d.%d",tm.tm_year+1900,tm.tm_mon+1,tm.tm_mday,tm.tm_hour,tm.tm_min,tm.tm_sec,(int)(us%1000000/100000)), day=full.substr(12); day=" "+day; unsigned w=r.below(30); S ex=full.substr(w>=full.size()?0:full.size()-w), ey=day.substr(w>=day.size()?0:day.size()-w); S g1=Utils::timestr(w,true), g2=Utils::timestr(w), g3=Utils::timestr(); if (g1!=ex||g2!=ey||(g3!=day&&g3!=day.substr(day.size()-12 > day.size()?0:day.size()>12?day.size()-12:0))) c.fail("num:timestr",fmt("width %u: '%s' '%s' '%s' expected '%s' '%s'",w,g1.c_str(),g2.c_str(),g3.c_str(),ex.c_str(),ey.c_str())); double tf=Utils::timef(); if (fabs(tf-us/1e6)>1e-5) c.fail("num:timef",fmt("%.6f",tf)); vclockOff();
	c.cover(s); c.count("numbers");
}
SCENARIO(str_scan)
{
	Rng &r=c.rng; S in; int nw=r.range(0,5); for (int i=0;i<nw;i++) { if (i) in+=" ,:  "[r.below(5)]; in+=plain(r,r.range(0,6)); } static const char *f1[]={"%s","%[^,],","key %s","%[a-z]","%c","%4c"}, *f2[]={"%s %s","%[^,],%s","%[^:]:%[^:]","%2c%s","%[a-z]%c"}, *f3[]={"%s %s %s","%[a-z]%[0-9]%s"}, *f4[]={"%s %s %s %s","%[^ ] %[^ ] %[^ ] %s"}; Heap h(in,true); std::vector<S> v(4,"before"), e=v; std::vector<std::vector<char>> b(4,std::vector<char>(in.size()+2)); int k=r.range(1,4), n,m; const char *f=k==1?f1[r.below(6)]:k==2?f2[r.below(5)]:k==3?f3[r.below(2)]:f4[r.below(2)]; if (strstr(f,"4c")&&in.size()<4) f="%c";	// within the buffer whatever the width
	if (k==1) n=myscanf(h.p,f,&v[0]); else if (k==2) n=myscanf(h.p,f,&v[0],&v[1]); else if (k==3) n=myscanf(h.p,f,&v[0],&v[1],&v[2]); else n=myscanf(h.p,f,&v[0],&v[1],&v[2],&v[3]); m=sscanf(h.p,f,b[0].data(),b[1].data(),b[2].data(),b[3].data()); for (int i=0;i<m;i++) e[i]=b[i].data(); if (n!=m||v!=e) c.fail("scan",fmt("'%s' of %s: %d fields '%s' '%s', expected %d '%s' '%s'",f,quote(in).c_str(),n,v[0].c_str(),v[1].c_str(),m,e[0].c_str(),e[1].c_str())); c.count("fields",m>0?m:0); c.cover(in+f);
}
SCENARIO(str_table)
{
	Rng &r=c.rng; syslogCapture(true); prettyTable_t t; int rows=r.range(0,6); for (int i=0;i<rows;i++) { std::vector<S> row; int cols=r.chance(1,6)?r.range(0,30):r.range(0,5); for (int j=0;j<cols;j++) row.push_back(r.chance(1,8)?"_":plain(r,r.chance(1,8)?r.range(80,200):r.below(9)," ")); t.push_back(row); } bool tab=r.chance(1,3); prettyTable_t keep=t; std::ostringstream os; printPrettyTable(t,os,tab); S w; std::vector<size_t> wd(31); for (auto &x:t) for (size_t j=0;j<x.size();j++) wd[j]=std::max(wd[j],std::min<size_t>(100,x[j].size()));
	for (auto &x:t) { for (size_t j=0;j<x.size();j++) { S v=x[j]=="_"?"":x[j]; if (tab) { if (j) w+="\t"; w+=v; } else { w+=v; while (v.size()<wd[j]) { w+=" "; v+=" "; } w+=" "; } } w+="\n"; } w+="\n"; if (os.str()!=w||t!=keep) c.fail("table",fmt("printed %s expected %s",quote(os.str(),300).c_str(),quote(w,300).c_str())); c.count("cells",rows); c.cover(w);
}
SCENARIO(str_regexp)
{
	Rng &r=c.rng; S lit=plain(r,r.range(1,4)); for (char &ch:lit) if (ch=='.') ch='q'; S text=r.chance(1,2)?plain(r,r.below(8))+lit+plain(r,r.below(8)):r.chance(1,3)?lit:plain(r,r.below(12)); if (r.chance(1,5)) text+="\n"; S p; bool want; int k=r.below(6); bool icase=false; S up=text; for (char &ch:up) ch=toupper(ch);
	switch (k) { case 0: p=lit; want=text.find(lit)!=S::npos; break; case 1: p="^"+lit; want=text.compare(0,lit.size(),lit)==0; break; case 2: p=lit+"$"; want=text.size()>=lit.size()&&text.compare(text.size()-lit.size(),lit.size(),lit)==0; break; case 3: { p="^[0-9]+$"; want=!text.empty(); for (char ch:text) if (!isdigit((unsigned char)ch)) want=false; break; } case 4: { p="(zz|"+lit+")"; want=text.find(lit)!=S::npos||text.find("zz")!=S::npos; break; } default: { S x=lit; for (char &ch:x) ch=toupper(ch); p=lit; icase=true; want=up.find(x)!=S::npos; } }
	bool g; { Regexp x(p.c_str(),REG_EXTENDED|(icase?REG_ICASE:0)); g=x.match(text.c_str()); if (x.match(text.c_str())!=g) c.fail("regexp:again","the second match of the same text differs"); if (k==1&&x.match(text.c_str(),REG_NOTBOL)) c.fail("regexp:flags","match flags ignored"); } if (g!=want) c.fail("regexp",fmt("%s %s %s",quote(p).c_str(),g?"matches":"does not match",quote(text).c_str())); c.count(g?"matched":"unmatched"); 	// the compilation flags decide the syntax: the same answers as the system's matcher
	static const char *pats[]={"a+","(a|b)c","a\\{2\\}","\\(a\\)\\1","a{2}","^[[:alpha:]]*$","a?b","^$","[^a]b$","a.c","\\(b\\|c\\)"}; static const char *al="aabbcc+|(){}2?\n\\"; const char *pp=pats[r.below(11)]; int fl=(r.chance(1,2)?REG_EXTENDED:0)|(r.chance(1,4)?REG_ICASE:0)|(r.chance(1,3)?REG_NOSUB:0)|(r.chance(1,3)?REG_NEWLINE:0); S t; int tl=r.below(9); for (int i=0;i<tl;i++) t+=al[r.below(strlen(al))]; if (r.chance(1,3)) t=pp; if (r.chance(1,6)) for (char &ch:t) ch=toupper(ch); bool dflt=r.chance(1,4); int ef=r.chance(1,3)?REG_NOTEOL:r.chance(1,3)?REG_NOTBOL:0; regex_t rx; if (regcomp(&rx,pp,dflt?REG_EXTENDED:fl)==0) { bool wm=regexec(&rx,t.c_str(),0,NULL,ef)==0; regfree(&rx); bool gm; if (dflt) { Regexp x(pp); gm=x.match(t.c_str(),ef); } else { Regexp x(pp,fl); gm=ef?x.match(t.c_str(),ef):x.match(t.c_str()); } if (gm!=wm) c.fail("regexp:syntax",fmt("%s with flags %d/%d %s %s",quote(pp).c_str(),dflt?-1:fl,ef,gm?"matches":"does not match",quote(t).c_str())); c.count(wm?"syntax_matched":"syntax_unmatched"); }
	c.cover(p+"|"+text);
}
SCENARIO(kv_model)
{
	Rng &r=c.rng; std::map<S,S> m; size_t leak=0; S trace; std::vector<std::pair<S,S>> bad;
	auto body=[&]{ SimpleKeyValue kv; int n=r.range(1,8); for (int i=0;i<n;i++) { S line; int k=r.chance(1,2)?1:r.range(0,5); for (int j=0;j<k;j++) { if (j) line+=" "; S key=r.chance(1,2)?S(1,'A'+r.below(3)):plain(r,r.below(5)), val=r.chance(1,2)?fmt("%lld",(long long)(r.chance(1,3)?r.next():r.below(100))):plain(r,r.below(6),"="); if (r.chance(1,6)) line+=key; else { line+=key+"="+val; m[key]=val; } } trace+=line+";"; Heap h(line,true); if (k==1&&r.chance(1,2)) kv.addItem(h.p); else { if (k==1&&r.chance(1,3)) {} kv.addItems(h.p); } if (strcmp(h.p,line.c_str())) bad.push_back({"kv:argument","the text passed in was changed"}); }
		for (int q=0;q<6;q++) { S key; if (m.size()&&r.chance(2,3)) { auto it=m.begin(); std::advance(it,r.below(m.size())); key=it->first; } else key=plain(r,r.below(4)); auto it=m.find(key); const char *g=kv.get(key.c_str()); if (it==m.end()?g!=NULL:!g||it->second!=g) bad.push_back({"kv:get",key+" in "+trace}); bool v=r.chance(1,2); errno=0; long num=kv.getNum(key.c_str(),v), want=it==m.end()?0:atol(it->second.c_str()); if (num!=want||v!=(it!=m.end())) bad.push_back({"kv:num",fmt("%s: %ld valid=%d expected %ld",key.c_str(),num,v,want)}); bool th=false; S gs; long gn=0; try { gs=kv.getStrOrBust(key.c_str()); gn=kv.getNumOrBust(key.c_str()); } catch (SimpleKeyValueException &e) { th=true; if (S(e.what()).find(key)==S::npos) bad.push_back({"kv:what","the exception does not name the key"}); } if (th!=(it==m.end())||(!th&&(gs!=it->second||gn!=want))) bad.push_back({"kv:bust",key}); th=false; try { kv.getNumOrBust(key.c_str()); } catch (SimpleKeyValueException &) { th=true; } if (th!=(it==m.end())) bad.push_back({"kv:numbust",key}); } };
	leak=leakedBytes([&]{ Rng save=r; std::map<S,S> sm=m; body(); r=save; m=sm; S().swap(trace); }); trace=""; body(); if (leak>0) c.fail("kv:leak",fmt("%d bytes not released",(int)leak)); for (auto &b:bad) c.fail(b.first,b.second); c.cover(trace); c.count("pairs",m.size()); if (c.caseNo<2) c.sample(quote(trace,100));
}
SCENARIO(kv_hash)
{
	Rng &r=c.rng; S a=bytes(r,r.range(0,40)), b=r.chance(1,3)?a:bytes(r,r.range(0,40)); a.erase(std::remove(a.begin(),a.end(),'\0'),a.end()); b.erase(std::remove(b.begin(),b.end(),'\0'),b.end()); if (r.chance(1,3)&&a.size()) { b=a; b[r.below(b.size())]^=1+r.below(255); } if (r.chance(1,3)) { b=a+(char)r.range(1,255); }  b=b.c_str();
	HashString x(a), y(b.c_str()), z; if (z.hash()!=HashString("").hash()) c.fail("hash:empty","default and empty strings hash differently"); if (r.chance(1,2)) { S t=a; z=t; } else z=a.c_str(); if (S(x)!=a||S(z)!=a) c.fail("hash:text","text changed"); if (x.hash()!=z.hash()||!(x==z)) c.fail("hash:equal","equal texts differ"); if (a!=b && (x==y||x.hash()==y.hash())) c.fail("hash:collision",fmt("%s and %s have the same hash",quote(a).c_str(),quote(b).c_str())); if (a==b && !(x==y)) c.fail("hash:equal","equal texts differ");
	int n=(x<y)+(x>y)+(x==y); if (n!=1) c.fail("hash:order",fmt("of less, greater and equal %d hold",n)); if ((x<y)!=(y>x)) c.fail("hash:mirror","less and greater disagree"); HashString cp(x); if (cp.hash()!=x.hash()) c.fail("hash:copy","copy hashes differently");
	// objects given one text after another, in every way there is
	{ const int N=3; HashString h[N]; S t[N]; std::vector<S> pool; for (int i=0;i<5;i++) pool.push_back(plain(r,r.chance(2,3)?3:r.below(6))); pool.push_back(""); for (int i=0;i<3;i++) { S s=pool[r.below(pool.size())]; if (s.size()>1) std::swap(s[0],s[s.size()-1]); pool.push_back(s); }
	  for (int i=0;i<12;i++) { int k=r.below(N), j=r.below(N); S s=pool[r.below(pool.size())]; switch (r.below(6)) { case 0: case 1: { S q=s; h[k]=q; t[k]=s; if (q!=s) c.fail("hash:source","assigning changed its source"); break; } case 2: h[k]=s.c_str(); t[k]=s; break; case 3: h[k]=h[j]; t[k]=t[j]; break; case 4: h[k]=HashString(s.c_str()); t[k]=s; break; default: { const S q=s; HashString n(q); h[k]=n; t[k]=s; } }
		for (int a=0;a<N;a++) { if (S(h[a])!=t[a]) c.fail("hash:text","text differs after assignments"); if (h[a].hash()!=HashString(t[a]).hash()) c.fail("hash:assigned",fmt("%s hashes differently after assignments",quote(t[a]).c_str())); for (int b=0;b<N;b++) { bool eq=t[a]==t[b]; if ((h[a]==h[b])!=eq||(h[a].hash()==h[b].hash())!=eq) c.fail("hash:assigned-equal",quote(t[a])+" and "+quote(t[b])); if ((h[a]<h[b])+(h[a]>h[b])+(h[a]==h[b])!=1||(h[a]<h[b])!=(h[b]>h[a])) c.fail("hash:assigned-order",quote(t[a])+" and "+quote(t[b])); } } c.count("assigned_texts"); } }
	c.cover(a+"\x01"+b); c.count("hashes");
}
template<class W, class B> static void scal(rt::Ctx &c, const char *name, bool arith) {
	Rng &r=c.rng; W w; if ((B)w!=(B)0) c.fail(S("scalar:init:")+name,"not zero initialised"); B m=0; for (int i=0;i<12;i++) { B v=(B)(int)r.range(-50,50); if (r.chance(1,2)&&sizeof(B)<=8&&std::is_integral<B>::value) v=(B)(r.next()>>r.below(64)); B ret=0, er=0; switch (r.below(4)) { case 0: ret=(w=v); er=(m=v); break; case 1: { W q(v); w=q; m=v; break; } case 2: { W q=w; if ((B)q!=m) c.fail(S("scalar:copy:")+name,"copy differs"); break; } default: { auto *p=&w; if ((void*)p!=(void*)&w.value||(B)*p!=m) c.fail(S("scalar:addr:")+name,"address"); } } if (ret!=er||(B)w!=m||(long double)w!=(long double)m) c.fail(S("scalar:value:")+name,fmt("value %g expected %g",(double)(B)w,(double)m)); } }
template<class W, class B> static void scalA(rt::Ctx &c, const char *name) {
	scal<W,B>(c,name,true); Rng &r=c.rng; B m=(B)r.below(30); if (r.chance(1,2)&&std::is_unsigned<B>::value) m=(B)(r.next()>>r.below(64)); W w(m); if ((B)w!=m) c.fail(S("scalar:construct:")+name,fmt("constructed from %g, holds %g",(double)m,(double)(B)w)); for (int i=0;i<20;i++) { B v=(B)(int)r.range(0,9), a=0, b=0; if (r.chance(1,3)&&std::is_unsigned<B>::value) v=(B)(r.next()>>r.below(64)); int op=r.below(6); switch (op) { case 0: a=++w; b=++m; break; case 1: a=w++; b=m++; break; case 2: a=--w; b=--m; break; case 3: a=w--; b=m--; break; case 4: a=(w+=v); b=(m+=v); break; default: a=(w-=v); b=(m-=v); } if (a!=b||(B)w!=m||(long double)w!=(long double)m) { c.fail(fmt("scalar:op%d:%s",op,name),fmt("result %g value %g expected %g %g",(double)a,(double)(B)w,(double)b,(double)m)); return; } } }
enum Col { c0, c1, c2 };
SCENARIO(scalars)
{
	Rng &r=c.rng; scalA<Int_z,int>(c,"Int_z"); scalA<Char_z,signed char>(c,"Char_z"); scalA<Int16_z,int16_t>(c,"Int16_z"); scalA<Int32_z,int32_t>(c,"Int32_z"); scalA<UInt_z,unsigned>(c,"UInt_z"); scalA<UChar_z,unsigned char>(c,"UChar_z"); scalA<UInt16_z,uint16_t>(c,"UInt16_z"); scalA<UInt32_z,uint32_t>(c,"UInt32_z"); scalA<Size_t_z,size_t>(c,"Size_t_z"); scalA<Float_z,float>(c,"Float_z"); scalA<Double_z,double>(c,"Double_z"); scalA<Field_z<7>,unsigned>(c,"Field_z"); scalA<Field<9>,unsigned>(c,"Field"); scal<Bool_z,bool>(c,"Bool_z",false); { Int_i<42> q; if (q!=42) c.fail("scalar:declared","declared initial value"); UInt_i<7> u; Bool_i<true> b; Field_i<5,9> f; if (u!=7||!b||f!=9||f.getWidth()!=5||f.getValue()!=9) c.fail("scalar:declared","declared initial value or width"); Enum_z<Col> e; if (e!=c0) c.fail("scalar:enum","init"); e=c2; if (e!=c2) c.fail("scalar:enum","value"); Field<3,6> g; if (g!=6||g.getWidth()!=3) c.fail("scalar:field","width"); }
	{ BitSet b; unsigned m=0; if (b.bits()) c.fail("bitset:init","not empty"); for (int i=0;i<40;i++) { unsigned k=r.below(32); if (r.chance(1,2)) { b.setBit(k); m|=1u<<k; } else { b.clearBit(k); m&=~(1u<<k); } unsigned q=r.below(32); if (b.bits()!=m||b.isSet(q)!=!!(m>>q&1)||!!b.getBit(q)!=!!(m>>q&1)||(int)b!=(int)m) { c.fail("bitset",fmt("%x expected %x",b.bits(),m)); break; } } }
	{ Statistic<int> st; Statistic<double> sd; int n=r.chance(1,6)?r.range(20,600):r.range(0,12); long sum=0; int mn=0,mx=0,cur=0; double ds=0, big=0; if (st.getCurrent()!=0||st.getAvg()!=0) c.fail("stat:empty","empty statistic not zero"); for (int i=0;i<n;i++) { int v=r.range(-1000,1000); if (r.chance(1,4)) v=r.range(900,2000000000); st.addPoint(v); sd.addPoint(v/4.0); cur=v; if (!i||v<mn) mn=v; if (!i||v>mx) mx=v; sum+=v; ds+=v/4.0; big=std::max(big,fabs((double)v)); if (st.getCurrent()!=cur||st.mMin!=mn||st.mMax!=mx||(int)st.mCnt!=i+1||fabs(st.getAvg()-(double)sum/(i+1))>1e-9*big+1e-12||fabs(sd.getAvg()-ds/(i+1))>1e-9*big+1e-12) c.fail("stat:value",fmt("after %d points: current %d min %d max %d average %g, expected %d %d %d %g",i+1,st.getCurrent(),st.mMin,st.mMax,st.getAvg(),cur,mn,mx,(double)sum/(i+1))); } std::ostringstream os,w; os<<st; w<<"("<<cur; if (mn!=mx) w<<" min="<<mn<<" max="<<mx<<" avg="<<st.getAvg()<<" N="<<n; w<<")"; if (os.str()!=w.str()) c.fail("stat:text",os.str()+" expected "+w.str()); if (r.chance(1,30)) { Statistic<int> big; big.addPoint(1); big.addPoint(2); static const struct { unsigned n; const char *t; } nn[]={{1000000,"N=1e06"},{4294967295u,"N=4.29e09"},{999999,"N=999999"},{100000,"N=100000"},{123456,"N=123456"},{1234567,"N=1.23e06"}}; int w=r.below(6); big.mCnt=nn[w].n; std::ostringstream o; o<<big; if (o.str().find(nn[w].t)==S::npos) c.fail("stat:big",o.str()); } }
	{ MemStats ms; int now[3]={0},tot[3]={0}; static const MemStats::MemoryNames nm[]={MemStats::mVector,MemStats::mBitVector,MemStats::mMachineBase}; static const char *al[]={"Vector","BitVector","MachineBase","Other"}; const char *id[]={"Vector","BitVector","MachineBase"}; for (int i=0;i<20;i++) { int k=r.below(3); const char *as=r.chance(1,4)?al[r.below(4)]:id[k]; if (now[k]&&r.chance(1,2)) { ms.memChkDel(nm[k],as); now[k]--; } else { ms.memChkNew(nm[k],as); id[k]=as; now[k]++; tot[k]++; } } std::ostringstream os; ms.text(os); for (int k=0;k<3;k++) { if (ms.mMemNow[nm[k]]!=now[k]||ms.mMemTotal[nm[k]]!=tot[k]) c.fail("memstats",fmt("%s now %d total %d expected %d %d",id[k],ms.mMemNow[nm[k]],ms.mMemTotal[nm[k]],now[k],tot[k])); if (tot[k]&&os.str().find(fmt("\t%s %d %d\n",id[k],now[k],tot[k]))==S::npos) c.fail("memstats:text",os.str()); } }
	{ auto st2=[&](auto zero, const char *nm){ typedef decltype(zero) T; Statistic<T> s; T mn=0,mx=0,cur=0; double sum=0; int n=r.range(0,9); for (int i=0;i<n;i++) { T v=(T)(r.below(64000)/4.0); s.addPoint(v); cur=v; if (!i||v<mn) mn=v; if (!i||v>mx) mx=v; sum+=v; } if (s.getCurrent()!=cur||s.mMin!=mn||s.mMax!=mx||(int)s.mCnt!=n||fabs(s.getAvg()-(n?sum/n:0))>1e-9*mx+1e-12) c.fail(S("stat:value:")+nm,"wrong"); std::ostringstream o,w; o<<s; w<<"("<<cur; if (mn!=mx) w<<" min="<<mn<<" max="<<mx<<" avg="<<s.getAvg()<<" N="<<n; w<<")"; if (o.str()!=w.str()) c.fail(S("stat:text:")+nm,o.str()+" expected "+w.str()); }; st2(0u,"unsigned"); st2(0.0f,"float"); st2(0.0,"double"); }
	{ std::map<S,int> live; std::vector<std::pair<S,MemLabel*>> obj; S pre=fmt("k%llu_",(unsigned long long)r.next()); for (int i=0;i<20;i++) { if (obj.size()&&r.chance(1,2)) { size_t k=r.below(obj.size()); delete obj[k].second; live[obj[k].first]--; obj.erase(obj.begin()+k); } else { S key=pre+fmt("%d",(int)r.below(3)); MemLabel *m=new MemLabel; m->mccKey=key; gMemStats.mMemMap[key]++; live[key]++; obj.push_back({key,m}); } } for (auto &x:live) { int g=gMemStats.mMemMap[x.first]; if (g!=x.second) c.fail("memstats:label",fmt("%d objects alive under a label, reported %d",x.second,g)); gMemStats.mMemMap.erase(x.first); } for (auto &o:obj) { S k=o.first; delete o.second; gMemStats.mMemMap.erase(k); } }
	c.count("scalar_rounds"); c.coverHash(r.next());
}
// Objects with a memory leak detector: counted when created in any way, uncounted when destroyed, labelled or not.
namespace { DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TranEntry,MemCheckTranEntry)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(MMUser,MemCheckMMUser)
struct Tran : MemCheckTranEntry { int v; Tran(int x=0) : v(x) {} };
struct User : MemCheckMMUser { S v; User(int x=0) : v(fmt("%d",x)) {} };
static bool counted(const char *name, long now, long total, S &seen) { std::ostringstream os; gMemStats.text(os); S t=os.str(); if (t.find(fmt("\t%s %ld %ld\n",name,now,total))!=S::npos) return true; size_t p=t.find(S("\t")+name); seen=p==S::npos?"not listed":t.substr(p+1,t.find('\n',p)-p-1); return false; }
static S labelKey() { S k; for (auto &x:gMemStats.mMemMap) if (x.first.compare(0,10,"TranEntry_")==0) k=x.first; return k; }
static void labelIt(Tran *p) { RN_MEMLOG(TranEntry,p); } }
SCENARIO(memcount)
{
	Rng &r=c.rng; static long totT=0, totU=0; long liveT=0, liveU=0, lab=0; { struct O { std::unique_ptr<Tran> t; std::unique_ptr<User> u; bool lab=false; }; std::vector<O> v; S seen;
	auto noteT=[&](Tran *p, bool lb){ O o; o.t.reset(p); o.lab=lb; if (lb) { labelIt(p); lab++; } v.push_back(std::move(o)); liveT++; totT++; };
	for (int i=0;i<40;i++) { int k=v.size()?r.below(v.size()):0; int d=v.empty()?0:v.size()>15?4:r.below(6);
		switch (d) { case 0: noteT(new Tran(i),r.chance(1,2)); break; case 1: { O o; o.u.reset(new User(i)); v.push_back(std::move(o)); liveU++; totU++; break; }
		case 2: if (v[k].t) noteT(new Tran(*v[k].t),r.chance(1,3)); else { O o; o.u.reset(new User(*v[k].u)); if (o.u->v!=v[k].u->v) c.fail("memcount:copy","copy differs"); v.push_back(std::move(o)); liveU++; totU++; } break;
		case 3: { int j=r.below(v.size()); if (v[k].t&&v[j].t) { *v[k].t=*v[j].t; if (v[k].t->v!=v[j].t->v) c.fail("memcount:assign","assigned value differs"); } else if (v[k].u&&v[j].u) *v[k].u=*v[j].u; break; }
		case 4: if (v[k].t) { liveT--; if (v[k].lab) lab--; } else liveU--; v.erase(v.begin()+k); break;
		default: { int n=r.below(5); std::vector<Tran> a; for (int q=0;q<n;q++) a.push_back(Tran(q)); long c0=0; std::ostringstream os; gMemStats.text(os); S t=os.str(); size_t p=t.find("\tTranEntry "); if (p!=S::npos) { sscanf(t.c_str()+p,"\tTranEntry %ld %ld",&c0,&totT); } if (n&&c0!=liveT+n) c.fail("memcount:container",fmt("%ld objects alive and %d in a container, reported %ld",liveT,n,c0)); break; } }
		if (totT&&!counted("TranEntry",liveT,totT,seen)) { c.fail("memcount:count",fmt("%ld objects alive of %ld created (operation %d), reported: %s",liveT,totT,d,seen.c_str())); return; }
		if (totU&&!counted("MMUser",liveU,totU,seen)) { c.fail("memcount:count",fmt("%ld objects alive of %ld created (operation %d), reported: %s",liveU,totU,d,seen.c_str())); return; }
		S k2=labelKey(); if (!k2.empty()&&(long)(int)gMemStats.mMemMap[k2]!=lab) { c.fail("memcount:label",fmt("%ld labelled objects alive, reported %d (operation %d)",lab,(int)gMemStats.mMemMap[k2],d)); return; }
		for (auto &x:gMemStats.mMemMap) if (x.first.empty()&&(int)x.second) { c.fail("memcount:unlabelled",fmt("%d objects counted without a label",(int)x.second)); return; } } }
	S seen; if (totT&&!counted("TranEntry",0,totT,seen)) c.fail("memcount:end","after all were destroyed: "+seen); if (totU&&!counted("MMUser",0,totU,seen)) c.fail("memcount:end","after all were destroyed: "+seen); S k=labelKey(); if (!k.empty()&&(int)gMemStats.mMemMap[k]) c.fail("memcount:label","labelled objects left after all were destroyed");
	c.count("counted_objects",40); c.coverHash(r.next());
}
// very many places, each with its own count
#include "labels.h"
SCENARIO(memlabels)
{
	Rng &r=c.rng; int places=r.range(1,90), n=r.range(1,400); static std::map<int,S> keys; std::map<S,long> want; for (auto &k:keys) want[k.second]=0; std::vector<std::pair<std::unique_ptr<User>,S>> v;
	auto check=[&](const char *w){ for (auto &x:want) { long g=gMemStats.mMemMap.count(x.first)?(int)gMemStats.mMemMap[x.first]:0; if (g!=x.second) { c.fail("memcount:labels",fmt("%ld objects labelled at one of %zu places alive, reported %ld (%s)",x.second,want.size(),g,w)); return false; } } for (auto &x:gMemStats.mMemMap) if ((int)x.second&&!want.count(x.first)) { c.fail("memcount:unlabelled",fmt("%d objects counted at a place which labelled none",(int)x.second)); return false; } return true; };
	for (int i=0;i<n;i++) { if (v.size()&&r.chance(1,3)) { int k=r.below(v.size()); if (v[k].second.size()) want[v[k].second]--; v.erase(v.begin()+k); } else { User *u=new User(i); S key; if (r.chance(5,6)) { int p=r.below(places); labelAt(p,u); key=u->mccKey; for (auto &k:keys) if (k.first!=p&&k.second==key) c.fail("memcount:same-label","two places share a label"); keys[p]=key; want[key]++; } v.emplace_back(std::unique_ptr<User>(u),key); } if (i%40==0&&!check("while running")) return; }
	if (!check("at the end")) return; v.clear(); for (auto &x:want) x.second=0; check("after all were destroyed"); c.count("labelled_objects",n); c.count("places",places); c.cover(fmt("%d %d",places,n));
}
// The same from several threads.
SCENARIO(memcount_conc)
{
	setCaseLimit(30); Rng &r=c.rng; int nt=r.range(2,6), n=r.range(20,c.thorough?2000:300); uint64_t ps=r.next(); static long totT=0; std::atomic<long> made(0); std::atomic<int> done(0); S seen;
	perturbOn(r.next(),r.below(3)); std::vector<Worker> w(nt+1); std::vector<Worker*> ws; volatile int bar=0; typedef std::pair<std::unique_ptr<Tran>,bool> K; std::vector<std::vector<K>> kept(nt);
	for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t]{ perturbThread(t); Rng x(ps+t); spinBarrier(&bar,nt); std::vector<K> &mine=kept[t]; for (int i=0;i<n;i++) { if (mine.size()&&x.chance(9,20)) mine.pop_back(); else { Tran *p=mine.size()&&x.chance(1,3)?new Tran(*mine.back().first):new Tran(i); bool lb=x.chance(1,2); if (lb) labelIt(p); mine.emplace_back(std::unique_ptr<Tran>(p),lb); made++; } } done++; }); }
	ws.push_back(&w[nt]); w[nt].start([&]{ perturbThread(90); while (done<nt) { std::ostringstream os; gMemStats.text(os); S t=os.str(); size_t p=t.find("\tTranEntry "); long a,b; if (p!=S::npos&&sscanf(t.c_str()+p,"\tTranEntry %ld %ld",&a,&b)==2&&(a<0||a>b)) c.fail("memcount:report",fmt("reported %ld objects alive of %ld",a,b)); usleep(200); } });
	if (!joinAll(ws,25)) { c.fail("memcount:stuck","threads creating and destroying counted objects are stuck"); abandonProcess(); } perturbOff();
	long live=0,lab=0; for (auto &k:kept) for (auto &o:k) { live++; lab+=o.second; } totT+=made; if (!counted("TranEntry",live,totT,seen)) c.fail("memcount:lost",fmt("%d threads: %ld objects alive of %ld created, reported: %s",nt,live,totT,seen.c_str()));
	S k=labelKey(); if (!k.empty()&&(long)(int)gMemStats.mMemMap[k]!=lab) c.fail("memcount:label",fmt("%d threads: %ld labelled objects alive, reported %d",nt,lab,(int)gMemStats.mMemMap[k]));
	kept.clear(); if (!counted("TranEntry",0,totT,seen)) c.fail("memcount:end","after all were destroyed: "+seen); if (!k.empty()&&(int)gMemStats.mMemMap[k]) c.fail("memcount:label",fmt("%d threads: %d labelled objects left after all were destroyed",nt,(int)gMemStats.mMemMap[k]));
	c.count("counted_objects",made); c.coverHash(perturbSignature());
}
