// Small monitoring runtime shared by all harnesses: seeded cases, violation and coverage
// reporting, virtual clock, schedule perturbation, stuck-thread detection, fault hooks.
#ifndef RT_H
#define RT_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <sstream>
#include <iostream>

namespace rt {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed=1) : s(seed) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ULL; z = (z ^ (z>>27))*0x94D049BB133111EBULL; return z ^ (z>>31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b-a)+1); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	double unit() { return (next()>>11) * (1.0/9007199254740992.0); }
	template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

std::string fmt(const char *f, ...) __attribute__((format(printf,1,2)));
std::string quote(const std::string &s, size_t max=200);	// printable rendering
uint64_t hash64(const std::string &s);
uint64_t hash64(const void *p, size_t n);

struct Ctx {
	std::string scenario;
	uint64_t caseNo = 0, seed = 0;
	bool thorough = false;
	Rng rng;
	// Report a violation. key identifies the specific failing input/call site class.
	void fail(const std::string &key, const std::string &detail);
	bool check(bool ok, const char *key, const std::string &detail) { if (!ok) fail(key,detail); return ok; }
	void count(const char *name, uint64_t n=1);
	void cover(const std::string &token);		// one distinct non-trivial case/state observed
	void coverHash(uint64_t h);
	void sample(const std::string &text);		// keep a few written-out cases
};

typedef void (*ScenarioFn)(Ctx &);
struct Registrar { Registrar(const char *name, ScenarioFn fn); };
#define SCENARIO(name) \
	static void scen_##name(rt::Ctx &c); \
	static rt::Registrar reg_##name(#name, scen_##name); \
	static void scen_##name(rt::Ctx &c)

// ---- virtual clock: affects gettimeofday/time/clock_gettime(REALTIME) while on. Single threaded use.
void vclockSet(int64_t usec);	// since epoch
void vclockAdvance(int64_t usec);
void vclockStepPerRead(int64_t usec);	// every read advances the clock afterwards
void vclockOff();
int64_t monoNs();		// real monotonic clock
int64_t realUs();

// ---- schedule perturbation: random yields/sleeps around pthread sync operations.
void perturbOn(uint64_t seed, unsigned level);	// level 0..3
void perturbOff();
void perturbThread(uint64_t salt);	// call in each worker thread
uint64_t perturbEvents();			// number of sync operations seen since on
uint64_t perturbSignature();		// hash of the global order of sync operations (per-thread ids)

// ---- syslog capture
struct SyslogRec { int prio; std::string text; };
void syslogCapture(bool on);
std::vector<SyslogRec> syslogTake();

// ---- threads
struct Worker {		// pthread wrapper independent of the library under test
	pthread_t th; std::function<void()> fn; volatile int tid=0; volatile bool done=false; bool started=false, joined=false;
	void start(std::function<void()> f);
	void join();
	~Worker();
};
// Block until all workers are done.  If no worker makes progress (all live ones asleep in the kernel, with
// unchanged context switch counts over several samples) call onStuck(); returns false when stuck.
// Wall clock alone never decides: a runnable thread keeps us waiting until the scenario watchdog.
bool joinAll(std::vector<Worker*> &ws, double quietSeconds=2.0);
// True if the thread is asleep (state S) and its context switch count did not move over the given time.
bool asleep(int tid, double seconds=1.0);
bool waitFor(std::function<bool()> pred, double seconds);	// poll a condition

void spuriousWakeups(unsigned perMille);
uint64_t spuriousCount();
void spinBarrier(volatile int *counter, int n);

std::string tmpDir();	// per process scratch directory (removed by the runner)
void setCaseLimit(double seconds);	// watchdog for this scenario (default 60)
void note(const std::string &s);	// breadcrumb for crash reports (cheap)

void abandonProcess();	// flush results and _exit when threads are irrecoverably stuck
}
#endif
