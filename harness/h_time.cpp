// Times and fixed point numbers against exact arithmetic.
#include "rt.h"
#include <cmath>
#include "Timeval.h"
#include "F16.h"
#include "Configuration.h"
#include "Utils.h"
#include <signal.h>
#include <sys/wait.h>
#include <pthread.h>
#include <thread>
#include <atomic>
ConfigurationTable gConfig;
using namespace rt;
typedef __int128 i128;

static int64_t us(const Timeval &t) { return (int64_t)t.sec()*1000000+t.usec(); }
static int64_t pickClock(Rng &r) { int64_t s; switch (r.below(4)) { case 0: s=r.range(1,100000); break; case 1: s=r.range(0x7fffff00LL,0x80000100LL); break; default: s=r.range(1000000000LL,2000000000LL); } static const int64_t u[]={0,1,999,1000,500000,999000,999001,999999}; return s*1000000+(r.chance(1,2)?u[r.below(8)]:(int64_t)r.below(1000000)); }
static unsigned pickMs(Rng &r) { static const unsigned e[]={0,1,999,1000,1001,59999,60000,86400000,2147483647u,2147483648u,4294967295u,4294967u,4294968u}; switch (r.below(4)) { case 0: return e[r.below(13)]; case 1: return r.below(3000); case 2: return r.next(); default: return r.below(10000000); } }
SCENARIO(time_math)
{
	Rng &r=c.rng;
	for (int it=0;it<40;it++) {
		int64_t now=pickClock(r); vclockSet(now); unsigned ms=pickMs(r); std::string d=fmt("clock %lld.%06lld offset %u ms",(long long)(now/1000000),(long long)(now%1000000),ms);
		Timeval a(ms), b; b.future(ms); Timeval z; z.now(); Timeval zz; int64_t want=now+(int64_t)ms*1000;
		if (us(z)!=now || us(zz)!=now) { vclockOff(); c.fail("time:now",d); return; }
		for (Timeval *t : {&a,&b}) { if (t->usec()>=1000000) { vclockOff(); c.fail("time:normal",d+fmt(" has %u microseconds",t->usec())); return; }
			if (us(*t)!=want) { vclockOff(); c.fail("time:future",d+fmt(" gave %u.%06u",t->sec(),t->usec())); return; } 
			struct timespec ts=t->timespec(); if (ts.tv_nsec<0||ts.tv_nsec>999999999L||(int64_t)ts.tv_sec*1000000000LL+ts.tv_nsec!=want*1000) { vclockOff(); c.fail("time:timespec",d+fmt(" gave %ld,%ld",(long)ts.tv_sec,ts.tv_nsec)); return; }
			if (std::fabs(t->seconds()-want/1e6)>2e-6) { vclockOff(); c.fail("time:seconds",d); return; }
			long rem=t->remaining(), el=t->elapsed(); if (std::llabs((int64_t)rem*1000-(want-now))>=1000 || std::llabs((int64_t)el*1000-(now-want))>=1000) { vclockOff(); c.fail("time:remaining",d+fmt(" remaining %ld elapsed %ld",rem,el)); return; } }
		// around the deadline
		static const int64_t off[]={-1000001,-1000000,-999999,-1000,-1,0,1,1000,999999,1000000,1000001,3600000000LL};
		for (int64_t o: off) { int64_t t=want+o; if (t<0) continue; vclockSet(t); bool p=a.passed(); if (p!=(o>0)) { vclockOff(); c.fail("time:passed",d+fmt(": %lld us %s the deadline, passed()=%d",(long long)std::llabs(o),o<0?"before":"after",p)); return; } c.count("deadline_checks"); }
		// pairs
		int64_t o2=pickClock(r); if (r.chance(1,2)) o2=want+r.range(-5000000,5000000); if (o2<0) o2=0; if (std::llabs(o2-want)<2000000000LL*1000000) {
			Timeval x((unsigned)(want/1000000),(unsigned)(want%1000000)), y((unsigned)(o2/1000000),(unsigned)(o2%1000000)); struct timeval tv={(time_t)(o2/1000000),(suseconds_t)(o2%1000000)}; Timeval y2(tv);
			if (us(x)!=want || us(y)!=o2 || us(y2)!=o2) { vclockOff(); c.fail("time:construct",d); return; }
			for (int s=0;s<2;s++) { int64_t ex=s?want-o2:o2-want; long g=s?y.delta(x):x.delta(y2); if (std::llabs((int64_t)g*1000-ex)>=1000) { vclockOff(); c.fail("time:delta",fmt("difference of %lld us reported as %ld ms",(long long)ex,g)); return; } } c.count("deltas"); }
		{ unsigned m=r.below(6000000); Timeval x((unsigned)(now/1000000),(unsigned)(now%1000000)); x.addMinutes(m); if (now/1000000+(int64_t)m*60<4294967296LL && us(x)!=now+(int64_t)m*60000000LL) { vclockOff(); c.fail("time:minutes",d+fmt(" plus %u minutes",m)); return; } }
		{ std::ostringstream os; os<<a; double p=atof(os.str().c_str()); if (std::fabs(p-want/1e6)>2e-6 || os.str().find('e')!=std::string::npos) { vclockOff(); c.fail("time:print",d+" printed "+os.str()); return; } std::ostringstream o3; o3<<a.timespec(); if (o3.str()!=fmt("%lld,%lld",(long long)(want/1000000),(long long)(want%1000000)*1000)) { vclockOff(); c.fail("time:printspec",d+" printed "+o3.str()); return; } }
		c.cover(fmt("%lld/%u",(long long)(now%1000000),ms%1000)); if (c.caseNo<1 && it<3) c.sample(d);
	}
	vclockOff();
}
// civil date from day number, proleptic Gregorian (independent of libc)
static std::string iso(int64_t t, const char *z) { int64_t day=t/86400, s=t%86400; if (s<0) { s+=86400; day--; } int64_t y=1970; auto leap=[](int64_t y){return (y%4==0&&y%100!=0)||y%400==0;}; while (day<0) { y--; day+=leap(y)?366:365; } while (day>=(leap(y)?366:365)) { day-=leap(y)?366:365; y++; } static const int ml[]={31,28,31,30,31,30,31,31,30,31,30,31}; int m=0; while (true) { int k=ml[m]+(m==1&&leap(y)); if (day<k) break; day-=k; m++; } return fmt("%04d-%02d-%02dT%02d:%02d:%02d%s",(int)y,m+1,(int)day+1,(int)(s/3600),(int)(s/60%60),(int)(s%60),z); }
SCENARIO(time_iso)
{
	Rng &r=c.rng;
	static const int offs[]={0,3600,-18000,19800,-12600,50400,-43200}; int o=offs[c.caseNo%7]; int h=o/60; char tz[40]; snprintf(tz,sizeof tz,"ABC%s%d:%02d",h>0?"-":"+",abs(h)/60,abs(h)%60); setenv("TZ",tz,1); tzset();
	for (int i=0;i<80;i++) { int64_t t; switch (r.below(5)) { case 0: t=r.range(-2000000000LL,4000000000LL); break; case 1: { int64_t y=r.range(0,120); t=y*31556952+r.range(-200000,200000); break; } case 2: t=r.range(0,24855)*86400LL+r.range(-2,2); break; case 3: { static const int64_t e[]={0,-1,951782399,951782400,951868800,4107542400LL-1,4107542400LL,4294967295LL,4294967296LL,2147483647,2147483648LL,1078012800,253402300799LL-50400}; t=e[r.below(13)]; break; } default: t=r.range(0,3000000000LL); }
		std::string g=Timeval::isoTime(t,false), l=Timeval::isoTime(t,true), out="stale"; if (g!=iso(t,"Z")) { c.fail("iso:utc",fmt("%lld printed %s expected %s",(long long)t,g.c_str(),iso(t,"Z").c_str())); break; } if (l!=iso(t+o,"")) { c.fail("iso:local",fmt("%lld zone %s printed %s expected %s",(long long)t,tz,l.c_str(),iso(t+o,"").c_str())); break; }
		Timeval::isoTime(t,out,false); if (out!=g) c.fail("iso:out",out); Timeval::isoTime(t,out,true); if (out!=l) c.fail("iso:out",out); c.count("dates"); c.cover(fmt("%lld",(long long)t)); }
	setenv("TZ","UTC",1); tzset();
}
static void onSig(int) {}
// Several threads make texts of different times; nobody gets another's.
SCENARIO(time_threads)
{
	int nt=2+c.rng.below(4), n=c.rng.range(100,600); std::vector<std::string> viol(nt); std::vector<Worker> w(nt); std::vector<Worker*> ws; uint64_t sd=c.rng.next(); perturbOn(sd,c.rng.below(3)); std::atomic<int> ready(0); setenv("TZ","UTC",1); tzset();
	for (int t=0;t<nt;t++) { ws.push_back(&w[t]); w[t].start([&,t]{ perturbThread(t); Rng q(sd+t); ready++; while (ready<nt) sched_yield(); for (int i=0;i<n;i++) { int64_t v=q.range(-2000000000LL,4000000000LL); bool loc=q.chance(1,2); std::string g, want=iso(v,loc?"":"Z"); if (q.chance(1,2)) g=Timeval::isoTime(v,loc); else Timeval::isoTime(v,g,loc); if (g!=want) { viol[t]=fmt("%lld printed %s expected %s",(long long)v,g.c_str(),want.c_str()); break; }
		if (i%8==0) { unsigned fw=1+q.below(14); std::string s=Utils::timestr(fw); if (s.size()>fw || s.empty()) { viol[t]=fmt("timestr(%u) is '%s'",fw,s.c_str()); break; } std::ostringstream o; struct timeval tv={(time_t)(1000000000+t),(suseconds_t)(i)}; o<<Timeval(tv); double back=atof(o.str().c_str()); if (fabs(back-(1000000000+t+i*1e-6))>2e-6) { viol[t]="time written as "+o.str(); break; } } } }); }
	if (!joinAll(ws,5)) { c.fail("stuck","threads making time texts are stuck"); abandonProcess(); } perturbOff();
	for (auto &v:viol) if (!v.empty()) { c.fail("time:threads",v); break; } c.count("texts",nt*n); c.cover(fmt("%d %d %llx",nt,n,(unsigned long long)sd));
}
SCENARIO(time_sleep)
{
	long ms=c.rng.range(0,1200); int64_t t0=monoNs(); msleep(ms); int64_t e=monoNs()-t0; if (e<ms*1000000LL) c.fail("msleep:short",fmt("msleep(%ld) returned after %lld us",ms,(long long)(e/1000))); c.count("sleeps"); c.cover(fmt("%ld",ms)); 
	for (int i=0;i<4;i++) { double s=c.rng.chance(1,2)?c.rng.unit()*0.012:c.rng.chance(1,3)?0:c.rng.unit()*0.0009; int64_t a=monoNs(); sleepf(s); int64_t el=monoNs()-a; if (s>0.00001 /* less is not slept */ && el+1000<s*1e9) c.fail("sleepf:short",fmt("sleepf(%.9f) returned after %.9f s",s,el/1e9)); c.count("sleeps"); }
	// Signals which are handled do not shorten a sleep.
	{ struct sigaction sa, old; memset(&sa,0,sizeof sa); sa.sa_handler=onSig; sigaction(SIGUSR1,&sa,&old); long n=c.rng.range(20,400); int how=c.rng.below(2); std::atomic<int> done(0); std::atomic<long> el(0); std::atomic<pthread_t> self(0); long hits=0;
	  std::thread t([&]{ self=pthread_self(); int64_t a=monoNs(); if (how) msleep(n); else sleepf(n/1000.0); el=(monoNs()-a)/1000; done=1; while (done!=2) usleep(300); });
	  int gap=c.rng.range(1,60); while (!done) { usleep(gap*1000); if (self.load() && !done) { pthread_kill(self,SIGUSR1); hits++; } } done=2; t.join(); sigaction(SIGUSR1,&old,NULL);
	  if (el+2000<n*1000) c.fail(how?"msleep:signal":"sleepf:signal",fmt("a sleep of %ld ms interrupted by %ld signals returned after %ld us",n,hits,(long)el)); c.count("interrupted_sleeps"); c.count("signals",hits); }
	// Nor is a very long one cut off.
	{ long n=c.rng.pick(std::vector<long>{4294968,4294970,8589935,2147484,3600000}); int how=c.rng.below(2); pid_t k=fork(); if (!k) { if (how) msleep(n); else sleepf(n/1000.0); _exit(0); } usleep(120000); int st; if (waitpid(k,&st,WNOHANG)==k) c.fail(how?"msleep:long":"sleepf:long",fmt("a sleep of %ld ms returned at once",n)); else { kill(k,SIGKILL); waitpid(k,&st,0); } c.count("long_sleeps"); }
	Timeval dl(20); while (!dl.passed()) { long r=dl.remaining(); if (r<-5000||r>20) { c.fail("time:remaining-real",fmt("%ld ms remaining of 20",r)); break; } usleep(500); }
}

static const int64_t MX=2147483647LL, MN=-2147483648LL;
static int64_t clampv(i128 v) { return v>MX?MX:v<MN?MN:(int64_t)v; }
static int32_t pickRaw(Rng &r) { switch (r.below(8)) { case 0: return 0; case 1: return r.range(-3,3); case 2: return (int32_t)(r.range(-40,40)*65536); case 3: return r.range(-200000,200000); case 4: return r.chance(1,2)?MX-(int)r.below(3):MN+(int)r.below(3); case 5: return (int32_t)(r.range(-32768,32767)*65536); case 6: return r.range(-66000000,66000000); default: return (int32_t)r.next(); } }
static F16 raw(int32_t v) { F16 f; f.raw()=v; return f; }
static bool near(int64_t got, long double exact, long double tol) { if (exact>MX) exact=MX; if (exact<MN) exact=MN; return std::fabs((long double)got-exact)<=tol; }
SCENARIO(f16_math)
{
	Rng &r=c.rng;
	for (int it=0;it<60;it++) {
		int32_t a=pickRaw(r), b=pickRaw(r); F16 A=raw(a), B=raw(b); std::string d=fmt("%d/65536 and %d/65536",a,b);
		#define BAD(k,g) { c.fail(k,d+fmt(" gave raw %d",(int)(g))); return; }
		{ int64_t w=clampv((i128)a+b); F16 s=A+B, t=A; F16 &ref=(t+=B); if (s.raw()!=w) BAD("f16:add",s.raw()); if (t.raw()!=w||&ref!=&t) BAD("f16:addin",t.raw()); }
		{ int64_t w=clampv((i128)a-b); F16 s=A-B, t=A; F16 &ref=(t-=B); if (s.raw()!=w) BAD("f16:sub",s.raw()); if (t.raw()!=w||&ref!=&t) BAD("f16:subin",t.raw()); }
		{ long double e=(long double)((i128)a*b)/65536; F16 s=A*B, t=A; t*=B; if (!near(s.raw(),e,1)) BAD("f16:mul",s.raw()); if (t.raw()!=s.raw()) BAD("f16:mulin",t.raw()); }
		if (b) { long double e=(long double)a*65536/b; F16 s=A/B, t=A; t/=B; if (!near(s.raw(),e,1)) BAD("f16:div",s.raw()); if (t.raw()!=s.raw()) BAD("f16:divin",t.raw()); }
		if ((A<B)!=(a<b)||(A>B)!=(a>b)||(A==B)!=(a==b)) BAD("f16:cmp",0); if (!(A==A)||A<A||A>A) BAD("f16:cmpself",0);
		// mixed with floats
		float f; switch (r.below(6)) { case 0: f=r.range(-10,10); break; case 1: f=(r.unit()-0.5)*4; break; case 2: f=(r.unit()-0.5)*70000; break; case 3: f=(r.unit()-0.5)*0.001; break; case 4: f=(float)a/65536.0f; break; default: f=(r.unit()-0.5)*pow(10,r.range(-8,12)); }
		std::string d0=d; d=fmt("%d/65536 and float %.9g",a,f);
		{ long double e=(long double)a*f; long double tol=1+std::fabs(e)*1.5e-7L+1; if (std::fabs(e)>4e9) tol=1; F16 s=A*f, t=A; t*=f; if (!near(s.raw(),e,tol)) BAD("f16:mulf",s.raw()); if (!near(t.raw(),e,tol)) BAD("f16:mulfin",t.raw()); }
		if (f!=0) { long double e=(long double)a/f; long double tol=2+std::fabs(e)*1.5e-7L; if (std::fabs(e)>4e9) tol=1; F16 s=A/f, t=A; t/=f; if (!near(s.raw(),e,tol)) BAD("f16:divf",s.raw()); if (!near(t.raw(),e,tol)) BAD("f16:divfin",t.raw()); }
		{ long double v=(long double)a/65536; if (std::fabs(A.f()-v)>std::fabs(v)*7e-8L) BAD("f16:tofloat",a); if (std::fabs((long double)f-v)>std::fabs(v)*2e-7L) { if ((A<f)!=(v<f)||(A>f)!=(v>f)||(A==f)) BAD("f16:cmpf",0); } if (!(A==A.f())) BAD("f16:eqf",0); std::ostringstream os; os<<A; std::ostringstream o2; o2<<A.f(); if (os.str()!=o2.str()) BAD("f16:print",0); }
		// conversions
		{ if (r.chance(1,4)) { f=ldexpf((float)(r.next()&0xffffff),-r.range(10,30)); if (r.chance(1,2)) f=-f; d=fmt("float %.9g",f); } long double e=(long double)f*65536, tol=0.5L; F16 x(f), y; y=f; F16 z((double)f); if (!near(x.raw(),e,tol)) BAD("f16:fromfloat",x.raw()); if (y.raw()!=x.raw()) BAD("f16:assignfloat",y.raw()); if (z.raw()!=x.raw()) BAD("f16:fromdouble",z.raw()); double g=r.chance(1,2)?(r.unit()-0.5)*70000:r.chance(1,2)?(r.unit()-0.5)*1e-4:(r.unit()-0.5)*pow(10,r.range(-8,12)); F16 q(g); d=fmt("double %.17g",g); if (!near(q.raw(),(long double)g*65536,0.5L+1e-9L)) BAD("f16:fromdouble",q.raw()); }
		{ int i=r.chance(1,2)?r.range(-32768,32767):r.chance(1,2)?r.range(-40000,40000):(int)r.next(); d=fmt("int %d",i); int64_t w=clampv((i128)i*65536); F16 x(i), y; y=i; if (x.raw()!=w) BAD("f16:fromint",x.raw()); if (y.raw()!=w) BAD("f16:assignint",y.raw()); if (i>=-32768&&i<=32767) { if (x.f()!=(float)i) BAD("f16:intvalue",x.raw()); if (!near((A*i).raw(),(long double)a*i,2+std::fabs((long double)a*i)*1.5e-7L)) BAD("f16:mulint",(A*i).raw()); } }
		d=d0; { F16 x(7),y(9),z(11); x=y=A; if (x.raw()!=a||y.raw()!=a) BAD("f16:chain",x.raw()); z=(x=B); if (z.raw()!=b||x.raw()!=b) BAD("f16:chain",z.raw()); F16 w(A); w=w; if (w.raw()!=a) BAD("f16:selfassign",w.raw()); const F16 cw(A); if (cw.raw()!=a) BAD("f16:raw",cw.raw()); }
		c.count("f16_pairs"); c.cover(fmt("%d %d",a,b)); if (c.caseNo<1&&it<4) c.sample(d); }
}
