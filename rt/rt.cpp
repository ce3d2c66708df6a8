#include "rt.h"
#include <stdarg.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unordered_set>
#include <algorithm>
#include <atomic>

namespace rt {

struct Shm { volatile uint64_t caseNo; volatile uint64_t started; char scenario[64]; char note[1024]; };
static Shm gShmLocal, *gShm = &gShmLocal;
static FILE *gOut;
static std::map<std::string,ScenarioFn> &scenarios() { static std::map<std::string,ScenarioFn> m; return m; }
Registrar::Registrar(const char *name, ScenarioFn fn) { scenarios()[name] = fn; }

static pthread_mutex_t gMu = PTHREAD_MUTEX_INITIALIZER;
struct MuLock { MuLock(){pthread_mutex_lock(&gMu);} ~MuLock(){pthread_mutex_unlock(&gMu);} };
static std::map<std::string,uint64_t> gCounters;
static std::map<std::string,unsigned> gFails;
static std::unordered_set<uint64_t> gCover;
static std::vector<std::string> gSamples;
static uint64_t gCasesDone, gSampleSeen;
static std::string gScenario;
static double gCaseLimit = 60;
static std::atomic<int64_t> gCaseStart(0);
static std::string gDir;

std::string fmt(const char *f, ...)
{
	va_list ap; va_start(ap,f);
	char buf[4096]; int n = vsnprintf(buf,sizeof(buf),f,ap); va_end(ap);
	if (n < (int)sizeof(buf)) return std::string(buf,n<0?0:n);
	std::string s(n+1,0); va_start(ap,f); vsnprintf(&s[0],n+1,f,ap); va_end(ap); s.resize(n); return s;
}
std::string quote(const std::string &s, size_t max)
{
	std::string r = "'";
	for (size_t i=0;i<s.size() && i<max;i++) { unsigned char ch = s[i];
		if (ch=='\\'||ch=='\'') { r+='\\'; r+=ch; } else if (ch>=32&&ch<127) r+=ch; else { char b[8]; snprintf(b,8,"\\x%02x",ch); r+=b; } }
	if (s.size()>max) r += fmt("...(%zu)",s.size());
	return r+"'";
}
uint64_t hash64(const void *p, size_t n) { uint64_t h=1469598103934665603ULL; const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ULL;} h^=h>>29; h*=0xBF58476D1CE4E5B9ULL; h^=h>>32; return h; }
uint64_t hash64(const std::string &s) { return hash64(s.data(),s.size()); }

static std::string jstr(const std::string &s)
{
	std::string r="\"";
	for (unsigned char ch : s) { if (ch=='"'||ch=='\\') { r+='\\'; r+=ch; } else if (ch<32||ch>=127) { char b[8]; snprintf(b,8,"\\u%04x",ch); r+=b; } else r+=ch; }
	return r+"\"";
}

void Ctx::fail(const std::string &key, const std::string &detail)
{
	MuLock l;
	unsigned n = gFails[key]++;
	if (n < 3) {
		fprintf(gOut,"{\"t\":\"viol\",\"key\":%s,\"scenario\":%s,\"case\":%llu,\"detail\":%s}\n",jstr(key).c_str(),jstr(scenario).c_str(),(unsigned long long)caseNo,jstr(detail.substr(0,3000)).c_str());
		fflush(gOut);
	}
}
void Ctx::count(const char *name, uint64_t n) { MuLock l; gCounters[name] += n; }
void Ctx::cover(const std::string &t) { coverHash(hash64(t)); }
void Ctx::coverHash(uint64_t h) { MuLock l; if (gCover.size() < 4000000) gCover.insert(h); }
void Ctx::sample(const std::string &text)
{
	MuLock l; gSampleSeen++;
	if (gSamples.size() < 3) gSamples.push_back(fmt("[%s #%llu] ",scenario.c_str(),(unsigned long long)caseNo)+text.substr(0,1500));
}
void note(const std::string &s) { size_t n = std::min(s.size(),sizeof(gShm->note)-1); memcpy(gShm->note,s.data(),n); gShm->note[n]=0; }
void setCaseLimit(double s) { gCaseLimit = getenv("VT_SLOW") ? s*30 : s; }
std::string tmpDir() { return gDir; }

static void flushResults(const char *why)
{
	// caller may hold gMu never
	MuLock l;
	fprintf(gOut,"{\"t\":\"done\",\"why\":\"%s\",\"scenario\":%s,\"cases\":%llu,\"cover\":[",why,jstr(gScenario).c_str(),(unsigned long long)gCasesDone);
	bool first=true; for (uint64_t h : gCover) { fprintf(gOut,first?"\"%llx\"":",\"%llx\"",(unsigned long long)h); first=false; }
	fprintf(gOut,"],\"counters\":{");
	first=true; for (auto &p : gCounters) { fprintf(gOut,"%s%s:%llu",first?"":",",jstr(p.first).c_str(),(unsigned long long)p.second); first=false; }
	fprintf(gOut,"},\"fails\":{");
	first=true; for (auto &p : gFails) { fprintf(gOut,"%s%s:%u",first?"":",",jstr(p.first).c_str(),p.second); first=false; }
	fprintf(gOut,"},\"samples\":[");
	first=true; for (auto &p : gSamples) { fprintf(gOut,"%s%s",first?"":",",jstr(p).c_str()); first=false; }
	fprintf(gOut,"]}\n"); fflush(gOut);
}
void abandonProcess() { flushResults("abandoned"); _exit(96); }

int64_t monoNs() { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&ts); return ts.tv_sec*1000000000LL+ts.tv_nsec; }
int64_t realUs() { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); return ts.tv_sec*1000000LL+ts.tv_nsec/1000; }
static void realSleepUs(int64_t us) { struct timespec ts = { us/1000000, (us%1000000)*1000 }; syscall(SYS_nanosleep,&ts,NULL); }

static void *watchdog(void *)
{
	for (;;) {
		realSleepUs(100000);
		int64_t st = gCaseStart.load();
		if (st && monoNs() - st > gCaseLimit*1e9) {
			fprintf(gOut,"{\"t\":\"hang\",\"scenario\":%s,\"case\":%llu,\"note\":%s}\n",jstr(gScenario).c_str(),(unsigned long long)gShm->caseNo,jstr(gShm->note).c_str());
			fflush(gOut);
			_exit(97);
		}
	}
	return 0;
}

void Worker::start(std::function<void()> f)
{
	fn = f; started = true;
	struct L { static void *run(void *p) { Worker *w=(Worker*)p; __atomic_store_n(&w->tid,(int)syscall(SYS_gettid),__ATOMIC_RELEASE); w->fn(); __atomic_store_n(&w->done,true,__ATOMIC_RELEASE); return 0; } };
	int r = pthread_create(&th,NULL,L::run,this);
	if (r) { fprintf(stderr,"rt: pthread_create %s\n",strerror(r)); _exit(95); }
}
void Worker::join() { if (started && !joined) { pthread_join(th,NULL); joined=true; } }
Worker::~Worker() { join(); }

// returns state char and total ctx switches
static bool taskStat(int tid, char &state, uint64_t &sw)
{
	char path[64], buf[4096]; snprintf(path,sizeof path,"/proc/self/task/%d/status",tid);
	int fd = open(path,O_RDONLY); if (fd<0) return false;
	int n = read(fd,buf,sizeof(buf)-1); close(fd); if (n<=0) return false; buf[n]=0;
	char *p = strstr(buf,"State:"); if (!p) return false; p+=6; while(*p==' '||*p=='\t')p++; state=*p;
	sw=0; p=strstr(buf,"voluntary_ctxt_switches:"); if (p) sw+=strtoull(p+24,0,10);
	p=strstr(buf,"nonvoluntary_ctxt_switches:"); if (p) sw+=strtoull(p+27,0,10);
	return true;
}
bool asleep(int tid, double seconds)
{
	char s; uint64_t sw0, sw; if (!taskStat(tid,s,sw0) || s!='S') return false;
	int64_t end = monoNs() + (int64_t)(seconds*1e9);
	while (monoNs() < end) { realSleepUs(50000); if (!taskStat(tid,s,sw) || s!='S' || sw!=sw0) return false; }
	return true;
}
bool joinAll(std::vector<Worker*> &ws, double quiet)
{
	std::map<int,uint64_t> last; int64_t quietSince = monoNs();
	int64_t spinEnd = monoNs()+2000000;
	for (;;) {
		bool all=true; for (Worker*w : ws) if (w->started && !__atomic_load_n(&w->done,__ATOMIC_ACQUIRE)) all=false;
		if (all) { for (Worker*w : ws) w->join(); return true; }
		if (monoNs() < spinEnd) { sched_yield(); continue; }
		realSleepUs(monoNs() < spinEnd+20000000 ? 200 : 20000);
		bool moved=false; std::map<int,uint64_t> cur;
		for (Worker*w : ws) if (w->started && !__atomic_load_n(&w->done,__ATOMIC_ACQUIRE)) {
			int tid = __atomic_load_n(&w->tid,__ATOMIC_ACQUIRE); char s; uint64_t sw;
			if (!tid || !taskStat(tid,s,sw) || s!='S') { moved=true; break; }
			cur[tid]=sw;
		}
		if (moved || cur.empty() || cur!=last) { last=cur; quietSince=monoNs(); continue; }
		if (monoNs()-quietSince > quiet*1e9) return false;
	}
}
bool waitFor(std::function<bool()> pred, double seconds)
{
	int64_t end = monoNs()+(int64_t)(seconds*1e9); int k=0;
	while (!pred()) { if (monoNs()>end) return pred(); if (k++<200) sched_yield(); else realSleepUs(500); }
	return true;
}
void spinBarrier(volatile int *counter, int n)
{
	__atomic_add_fetch(counter,1,__ATOMIC_ACQ_REL);
	int k=0; while (__atomic_load_n(counter,__ATOMIC_ACQUIRE) < n) { if (++k>50) sched_yield(); }
}
} // namespace

using namespace rt;
extern "C" const char *__asan_default_options() { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

int main(int argc, char **argv)
{
	std::string scen, out="/dev/stdout", shm; uint64_t seed=1, first=0, count=10; bool thorough=false;
	for (int i=1;i<argc;i++) { std::string a=argv[i];
		if (a=="--list") { for (auto &p : scenarios()) printf("%s\n",p.first.c_str()); return 0; }
		if (a=="--thorough") { thorough=true; continue; }
		if (i+1>=argc) break; const char*v=argv[++i];
		if (a=="--scenario") scen=v; else if (a=="--seed") seed=strtoull(v,0,10); else if (a=="--first") first=strtoull(v,0,10);
		else if (a=="--count") count=strtoull(v,0,10); else if (a=="--out") out=v; else if (a=="--shm") shm=v; else if (a=="--dir") gDir=v;
	}
	gOut = fopen(out.c_str(),"a"); if (!gOut) { perror("out"); return 95; }
	fcntl(fileno(gOut),F_SETFD,FD_CLOEXEC);
	if (gDir.empty()) { char t[]="/tmp/rtXXXXXX"; gDir=mkdtemp(t); }
	if (!shm.empty()) { int fd=open(shm.c_str(),O_RDWR|O_CREAT|O_CLOEXEC,0600); if (ftruncate(fd,sizeof(Shm))) return 95; void*p=mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); if (p!=MAP_FAILED) gShm=(Shm*)p; }
	auto it = scenarios().find(scen);
	if (it==scenarios().end()) { fprintf(stderr,"no scenario %s\n",scen.c_str()); return 95; }
	gScenario=scen; snprintf(gShm->scenario,sizeof gShm->scenario,"%s",scen.c_str());
	signal(SIGPIPE,SIG_IGN);
	pthread_t wd; pthread_create(&wd,NULL,watchdog,NULL);
	for (uint64_t k=first;k<first+count;k++) {
		gShm->caseNo=k; gShm->started=1; gShm->note[0]=0; gCaseStart=monoNs();
		Ctx c; c.scenario=scen; c.caseNo=k; c.seed=seed; c.thorough=thorough;
		c.rng = Rng(hash64(scen)^(seed*0x9E3779B97F4A7C15ULL)^(k*0xD1B54A32D192ED03ULL+17)); c.rng.next();
		it->second(c);
		gCaseStart=0; gCasesDone++;
		vclockOff(); perturbOff();
	}
	flushResults("complete");
	_exit(0);
}
