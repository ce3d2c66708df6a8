// Interposed libc/libpthread entry points (defined in the executable, so they also serve shared
// libraries). Compiled without sanitizer instrumentation; the next definition (the sanitizer
// runtime's interceptor or libc) is reached through dlsym(RTLD_NEXT).
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <syslog.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sched.h>

static volatile bool gV; static volatile int64_t gVUs, gVStep;
namespace rt {
void vclockSet(int64_t us) { gVUs=us; gV=true; }
void vclockAdvance(int64_t us) { gVUs=gVUs+us; }
void vclockStepPerRead(int64_t us) { gVStep=us; }
void vclockOff() { gV=false; gVStep=0; }
}
static int64_t vread() { return __atomic_fetch_add(&gVUs,gVStep,__ATOMIC_RELAXED); }
extern "C" int gettimeofday(struct timeval *__restrict tv, void *__restrict tz)
{
	if (gV) { int64_t t=vread(); if (tv) { tv->tv_sec=t/1000000; tv->tv_usec=t%1000000; } return 0; }
	return syscall(SYS_gettimeofday,tv,tz);
}
extern "C" time_t time(time_t *p)
{
	time_t t;
	if (gV) t = vread()/1000000; else { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); t=ts.tv_sec; }
	if (p) *p=t;
	return t;
}
extern "C" int clock_gettime(clockid_t c, struct timespec *ts)
{
	if (gV && (c==CLOCK_REALTIME || c==CLOCK_REALTIME_COARSE)) { int64_t t=vread(); ts->tv_sec=t/1000000; ts->tv_nsec=(t%1000000)*1000; return 0; }
	return syscall(SYS_clock_gettime,c,ts);
}

// ---------------------------------------------------------------- syslog
static bool gSysCap; static pthread_mutex_t gSysMu=PTHREAD_MUTEX_INITIALIZER; static std::vector<rt::SyslogRec> *gSys;
namespace rt {
void syslogCapture(bool on) { pthread_mutex_lock(&gSysMu); gSysCap=on; if (!gSys) gSys=new std::vector<SyslogRec>; gSys->clear(); pthread_mutex_unlock(&gSysMu); }
std::vector<SyslogRec> syslogTake() { pthread_mutex_lock(&gSysMu); std::vector<SyslogRec> r; if (gSys) r.swap(*gSys); pthread_mutex_unlock(&gSysMu); return r; }
}
static void capv(int prio, const char *f, va_list ap)
{
	pthread_mutex_lock(&gSysMu);
	if (gSysCap) {
		va_list ap2; va_copy(ap2,ap); int n=vsnprintf(NULL,0,f,ap2); va_end(ap2);
		std::string s(n>0?n:0,0); if (n>0) { std::string b(n+1,0); vsnprintf(&b[0],n+1,f,ap); s=b.substr(0,n); }
		if (gSys->size()<1000000) gSys->push_back(rt::SyslogRec{prio,s});
	}
	pthread_mutex_unlock(&gSysMu);
}
extern "C" void syslog(int p, const char *f, ...) { va_list ap; va_start(ap,f); capv(p,f,ap); va_end(ap); }
extern "C" void vsyslog(int p, const char *f, va_list ap) { capv(p,f,ap); }
extern "C" void __syslog_chk(int p, int, const char *f, ...) { va_list ap; va_start(ap,f); capv(p,f,ap); va_end(ap); }
extern "C" void __vsyslog_chk(int p, int, const char *f, va_list ap) { capv(p,f,ap); }
extern "C" __attribute__((weak)) void openlog(const char*,int,int) {}
extern "C" void closelog() {}

// ---------------------------------------------------------------- schedule perturbation
static volatile unsigned gLevel; static volatile uint64_t gPSeed; static uint64_t gEvents, gSig;
static __thread uint64_t tRng; static __thread uint64_t tEpoch; static __thread uint32_t tId; static volatile uint64_t gEpoch; static uint32_t gNextId;
static inline uint64_t tnext() { uint64_t z=(tRng+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
namespace rt {
void perturbOn(uint64_t seed, unsigned level) { gPSeed=seed; __atomic_store_n(&gEvents,0,__ATOMIC_RELAXED); __atomic_store_n(&gSig,1469598103934665603ULL,__ATOMIC_RELAXED); __atomic_store_n(&gNextId,1,__ATOMIC_RELAXED); __atomic_add_fetch(&gEpoch,1,__ATOMIC_RELAXED); __atomic_store_n(&gLevel,level+1,__ATOMIC_RELEASE); }
void perturbOff() { __atomic_store_n(&gLevel,0,__ATOMIC_RELEASE); }
void perturbThread(uint64_t salt) { tEpoch=gEpoch; tRng=gPSeed^(salt*0xD1B54A32D192ED03ULL+99); tId=(uint32_t)salt+1; }
uint64_t perturbEvents() { return __atomic_load_n(&gEvents,__ATOMIC_RELAXED); }
uint64_t perturbSignature() { return __atomic_load_n(&gSig,__ATOMIC_RELAXED); }
}
static void pause_us(long us) { struct timespec ts={0,us*1000}; syscall(SYS_nanosleep,&ts,NULL); }
static inline void perturb(int kind)
{
	unsigned lv=__atomic_load_n(&gLevel,__ATOMIC_ACQUIRE); if (!lv || tEpoch!=gEpoch) return;	// only threads which opted in
	__atomic_add_fetch(&gEvents,1,__ATOMIC_RELAXED);
	// order signature: racy read-modify-write on purpose, it is only a diversity measure
	uint64_t s=__atomic_load_n(&gSig,__ATOMIC_RELAXED); s^=tId*8+kind; s*=1099511628211ULL; __atomic_store_n(&gSig,s,__ATOMIC_RELAXED);
	lv--; if (!lv) return;
	int e=errno; uint64_t r=tnext(); unsigned d=r&255; r>>=8;
	if (lv==1) { if (d<64) sched_yield(); }
	else if (lv==2) { if (d<90) sched_yield(); else if (d<100) pause_us(1+r%60); else if (d<130) { for (volatile int i=0;i<(int)(r%400);i++); } }
	else { if (d<60) sched_yield(); else if (d<90) pause_us(1+r%150); else if (d<92) pause_us(300+r%1500); else if (d<140) { for (volatile int i=0;i<(int)(r%2000);i++); } }
	errno=e;
}
#define REAL(ret,name,args) typedef ret (*fn_##name) args; static fn_##name real_##name; \
	static fn_##name get_##name() { fn_##name f=__atomic_load_n(&real_##name,__ATOMIC_RELAXED); if (!f) { f=(fn_##name)dlsym(RTLD_NEXT,#name); __atomic_store_n(&real_##name,f,__ATOMIC_RELAXED); } return f; }
#define REALV(ret,name,args,ver) typedef ret (*fn_##name) args; static fn_##name real_##name; \
	static fn_##name get_##name() { fn_##name f=__atomic_load_n(&real_##name,__ATOMIC_RELAXED); if (!f) { f=(fn_##name)dlsym(RTLD_NEXT,#name); __atomic_store_n(&real_##name,f,__ATOMIC_RELAXED); } return f; }
REAL(int,pthread_mutex_lock,(pthread_mutex_t*))
REAL(int,pthread_mutex_unlock,(pthread_mutex_t*))
REAL(int,pthread_mutex_trylock,(pthread_mutex_t*))
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) { perturb(1); int r=get_pthread_mutex_lock()(m); perturb(2); return r; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) { int r=get_pthread_mutex_unlock()(m); perturb(3); return r; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) { perturb(4); int r=get_pthread_mutex_trylock()(m); perturb(5); return r; }
// Spurious wakeups are legal for condition variables; inject them into threads that opted in.
static volatile unsigned gSpurious; static uint64_t gSpuriousDone;
namespace rt { void spuriousWakeups(unsigned perMille) { gSpurious=perMille; } uint64_t spuriousCount() { return __atomic_load_n(&gSpuriousDone,__ATOMIC_RELAXED); } }
REAL(int,pthread_cond_wait,(pthread_cond_t*,pthread_mutex_t*))
REAL(int,pthread_cond_timedwait,(pthread_cond_t*,pthread_mutex_t*,const struct timespec*))
static bool spur() { if (!gSpurious || !__atomic_load_n(&gLevel,__ATOMIC_ACQUIRE) || tEpoch!=gEpoch) return false; return tnext()%1000 < gSpurious; }
static int shortwait(pthread_cond_t *c, pthread_mutex_t *m)
{
	struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts);
	ts.tv_nsec += 1000*(long)(tnext()%80); if (ts.tv_nsec>=1000000000) { ts.tv_nsec-=1000000000; ts.tv_sec++; }
	__atomic_add_fetch(&gSpuriousDone,1,__ATOMIC_RELAXED);
	get_pthread_cond_timedwait()(c,m,&ts); return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (spur()) return shortwait(c,m);
	return get_pthread_cond_wait()(c,m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	if (spur() && t && t->tv_nsec>=0 && t->tv_nsec<1000000000) return shortwait(c,m);
	return get_pthread_cond_timedwait()(c,m,t);
}
