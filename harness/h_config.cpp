// Configuration tables against a model of keys and values: reads, caching, defaults, other writers, faults, crashes, dumps.
#include "rt.h"
#include "lin.h"
#include "conc.h"
#include <cmath>
#include <climits>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <sqlite3.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "Configuration.h"
#include "Logger.h"
ConfigurationTable gConfig;
using namespace rt;
using namespace conc;
thread_local std::vector<int> conc::tlDel;

// ---- file system calls of sqlite: faults and crash points at the n-th change of the file
static volatile int gFaultAfter=-1, gCrashAfter=-1, gFsOps, gFaultLen; static volatile int gFaultsDone;
static bool fsFault() { int n=__atomic_add_fetch(&gFsOps,1,__ATOMIC_RELAXED); if (gCrashAfter>=0 && n>gCrashAfter) { kill(getpid(),SIGKILL); for (;;) pause(); } if (gFaultAfter>=0 && n>gFaultAfter && n<=gFaultAfter+gFaultLen) { gFaultsDone=gFaultsDone+1; return true; } return false; }
extern "C" ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (fsFault()) { errno=ENOSPC; return -1; } return syscall(SYS_pwrite64,fd,b,n,o); }
extern "C" ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd,b,n,o); }
extern "C" int fdatasync(int) { if (fsFault()) { errno=EIO; return -1; } return 0; }
extern "C" int fsync(int) { if (fsFault()) { errno=EIO; return -1; } return 0; }
extern "C" int ftruncate64(int fd, off64_t l) __THROW { if (fsFault()) { errno=EIO; return -1; } return syscall(SYS_ftruncate,fd,l); }
extern "C" int unlink(const char *p) __THROW { if (gCrashAfter>=0) fsFault(); return syscall(SYS_unlink,p); }
// ---- database handles are never closed by the tables; close them here so that long runs fit
static pthread_mutex_t gHm=PTHREAD_MUTEX_INITIALIZER; static std::vector<sqlite3*> gHandles; static volatile bool gTrackHandles;
extern "C" int sqlite3_open(const char *f, sqlite3 **db) { typedef int (*fn)(const char*,sqlite3**); static fn real=(fn)dlsym(RTLD_NEXT,"sqlite3_open"); int r=real(f,db); if (gTrackHandles && r==SQLITE_OK) { pthread_mutex_lock(&gHm); gHandles.push_back(*db); pthread_mutex_unlock(&gHm); } return r; }

typedef std::map<std::string,std::string> KV;
struct Scope { std::vector<ConfigurationTable*> tabs; std::vector<std::string> files; bool first;
	Scope() { gTrackHandles=true; struct rlimit rl; getrlimit(RLIMIT_NOFILE,&rl); if (rl.rlim_cur<rl.rlim_max) { rl.rlim_cur=std::min<rlim_t>(rl.rlim_max,65536); setrlimit(RLIMIT_NOFILE,&rl); } }
	ConfigurationTable *open(const std::string &f, ConfigurationKeyMap m=ConfigurationKeyMap()) { ConfigurationTable *t=new ConfigurationTable(f.c_str(),NULL,m); tabs.push_back(t); return t; }
	std::string file(Ctx &c) { std::string f=tmpDir()+fmt("/cfg%llu_%zu.db",(unsigned long long)c.caseNo,files.size()); files.push_back(f); syscall(SYS_unlink,f.c_str()); syscall(SYS_unlink,(f+"-journal").c_str()); return f; }
	~Scope() { for (auto t:tabs) delete t; gTrackHandles=false; for (auto h:gHandles) sqlite3_close(h); gHandles.clear(); for (auto &f:files) { syscall(SYS_unlink,f.c_str()); syscall(SYS_unlink,(f+"-journal").c_str()); } } };
static sqlite3 *rawOpen(const std::string &f) { sqlite3 *d=0; sqlite3_open_v2(f.c_str(),&d,SQLITE_OPEN_READWRITE|SQLITE_OPEN_CREATE,NULL); sqlite3_busy_timeout(d,5000); return d; }
static bool rawExec(sqlite3 *d, const std::string &q) { return sqlite3_exec(d,q.c_str(),0,0,0)==SQLITE_OK; }
static bool rawSet(sqlite3 *d, const std::string &k, const std::string &v) { sqlite3_stmt *s; if (sqlite3_prepare_v2(d,"INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (?,?)",-1,&s,0)) return false; sqlite3_bind_text(s,1,k.data(),k.size(),SQLITE_TRANSIENT); sqlite3_bind_text(s,2,v.data(),v.size(),SQLITE_TRANSIENT); int r=sqlite3_step(s); sqlite3_finalize(s); return r==SQLITE_DONE; }
static bool rawDel(sqlite3 *d, const std::string &k) { sqlite3_stmt *s; if (sqlite3_prepare_v2(d,"DELETE FROM CONFIG WHERE KEYSTRING = ?",-1,&s,0)) return false; sqlite3_bind_text(s,1,k.data(),k.size(),SQLITE_TRANSIENT); int r=sqlite3_step(s); sqlite3_finalize(s); return r==SQLITE_DONE; }
static KV rawAll(sqlite3 *d) { KV m; sqlite3_stmt *s; if (sqlite3_prepare_v2(d,"SELECT KEYSTRING,VALUESTRING FROM CONFIG",-1,&s,0)) { m["?"]="cannot read"; return m; } int r; while ((r=sqlite3_step(s))==SQLITE_ROW) { const char *v=(const char*)sqlite3_column_text(s,1); m[(const char*)sqlite3_column_text(s,0)]=v?v:"(null)"; } if (r!=SQLITE_DONE) m["?"]="cannot read"; sqlite3_finalize(s); return m; }

static ConfigurationKey mkKey(const std::string &n, const std::string &d, ConfigurationKey::Type t=ConfigurationKey::STRING_OPT, const std::string &vv="", const std::string &desc="", bool st=false, ConfigurationKey::VisibilityLevel vis=ConfigurationKey::DEVELOPER, unsigned scope=0, const std::string &units="") {
	// one in three is declared with another default and other values and updated
	if ((n.size()+d.size()+vv.size()+desc.size())%3) return ConfigurationKey(n,d,units,vis,t,vv,st,desc,scope);
	ConfigurationKey k(n,"other",units,vis,t,"1:2",st,desc,scope); bool num=!d.empty()&&d.size()<7&&d.find_first_not_of("0123456789")==std::string::npos&&(d=="0"||d[0]!='0'); if (num) k.updateDefaultValue(atoi(d.c_str())); else k.updateDefaultValue(d); k.updateValidValues(vv); return k;
}
static std::string text(Rng &r, bool hostile) {
	std::string s; int n=r.chance(1,40)?r.range(200,6000):r.chance(1,6)?0:r.range(1,24);
	static const char *parts[]={"'","\"","''","\"\"","%","_",";","--","\\","(",")",",","' OR '1'='1","\"; DROP TABLE CONFIG; --","\n","\t","\xc3\xa9","=","*","`","[","]","$","{","|","NULL","&","\r","\x01","\x7f","\xff"};
	while ((int)s.size()<n) { if (hostile && r.chance(1,4)) s+=parts[r.below(31)]; else s+="abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .:/-"[r.below(47)]; }
	return s; }
static std::vector<std::string> keyPool(Rng &r, bool hostile) {
	std::vector<std::string> k={"Log.File","GSM.Radio.ARFCNs","a","A","Key.One","Key.One.Two","Key.One.","key with space"}; static const char *odd[]={"KEYSTRING","VALUESTRING","keystring","STATIC","COMMENTS","OPTIONAL","rowid","it's","say \"x\"","50%","under_score","'","\"","a;b","NULL","1","''","x'; DELETE FROM CONFIG; --"};
	if (hostile) { int n=r.range(1,8); for (int i=0;i<n;i++) k.push_back(odd[r.below(18)]); } return k; }
static void quiet() { syslogCapture(true); }

// What a read may return: what is stored, or (only until 3 seconds after another writer changed it) what was stored before.
struct Model { KV db; std::map<std::string,std::vector<std::pair<int64_t,std::string>>> stale; KV def; 
	std::string cur(const std::string &k, bool &has) { auto i=db.find(k); if (i!=db.end()) { has=true; return i->second; } auto j=def.find(k); if (j!=def.end()) { has=true; return j->second; } has=false; return ""; } };
static const std::string ABSENT("\x01 absent");

SCENARIO(config_model)
{
	quiet(); Rng &r=c.rng; Scope S; bool hostile=r.chance(1,2); int ntab=r.chance(1,3)?2:1; std::string f[2]={S.file(c),S.file(c)}; ConfigurationTable *t[2]; Model m[2]; sqlite3 *ext[2]; int64_t now=1000000000+r.below(100000); vclockSet(now*1000000);
	std::vector<std::string> keys=keyPool(r,hostile); ConfigurationKeyMap sch; KV def; for (auto &k:keys) if (r.chance(1,3)&&k!="Log.File") { std::string d=text(r,false); sch[k]=mkKey(k,d,ConfigurationKey::STRING_OPT,"",hostile?text(r,true):"plain description"); def[k]=d; } def["Log.File"]="";
	for (int i=0;i<ntab;i++) { t[i]=S.open(f[i],sch); ext[i]=rawOpen(f[i]); m[i].def=def; }
	int n=c.thorough?r.range(50,1500):r.range(20,250); bool bad=false;
	auto modelGet=[&](int i, const std::string &k){ bool has; std::string v=m[i].cur(k,has); return has?v:ABSENT; };
	for (int s=0;s<n && !bad;s++) {
		int i=r.below(ntab); ConfigurationTable &T=*t[i]; Model &M=m[i]; std::string k=r.pick(keys); int op=r.below(100); std::string d=fmt("step %d table %d key %s: ",s,i,quote(k).c_str());
		if (op<25) { std::string v=text(r,hostile); bool ok=T.set(k,v); if (!ok) { c.fail(hostile?"config:set-refused-quote":"config:set-refused",d+"set refused value "+quote(v)); bad=true; } M.db[k]=v; M.stale[k].clear(); c.count("sets"); }
		else if (op<29) { long v=r.chance(1,3)?(r.chance(1,2)?LONG_MAX:LONG_MIN):r.chance(1,2)?(long)r.range(-100,100):(long)r.next(); if (!T.set(k,v)) { c.fail("config:set-refused",d+"set refused a number"); bad=true; } M.db[k]=fmt("%ld",v); M.stale[k].clear(); long g=0; try { g=T.getNum(k); } catch (ConfigurationTableKeyNotFound&) { g=~v; } if (g!=v) { c.fail("config:setnum",d+fmt("set to %ld, reads back %ld",v,g)); bad=true; } c.count("sets"); }
		else if (op<37) { bool had=M.db.count(k); bool g=T.remove(k); if (g!=had) { c.fail("config:remove-result",d+fmt("remove returned %d, the key was %s",g,had?"stored":"not stored")); bad=true; } M.db.erase(k); M.stale[k].clear(); c.count("removes"); }
		else if (op<45) { std::string old=modelGet(i,k); if (r.chance(2,3)) { std::string v=text(r,hostile); if (!rawSet(ext[i],k,v)) { c.fail("harness:ext","external writer"); bad=true; } M.db[k]=v; } else { rawDel(ext[i],k); M.db.erase(k); } M.stale[k].push_back(std::make_pair(now+3,old)); c.count("external_writes"); }
		else if (op<50) { T.purge(); M.stale.clear(); }
		else if (op<62) { now+=r.chance(1,3)?r.range(3,20):r.range(0,2); vclockSet(now*1000000); for (auto &p:M.stale) {} }
		else if (op<64 && S.tabs.size()<20) { t[i]=S.open(f[i],sch); M.stale.clear(); c.count("reopens"); }
		else { std::string w=modelGet(i,k), g; int how=r.below(3); bool got=true; if (how==0) { got=T.defines(k); g=got?"":ABSENT; } else { try { g=T.getStr(k); } catch (ConfigurationTableKeyNotFound &e) { got=false; g=ABSENT; if (e.key()!=k) { c.fail("config:exception-key",d+"exception names "+quote(e.key())); bad=true; } } }
			auto okv=[&](const std::string &x){ return how==0 ? (x!=ABSENT)==got : x==g; }; bool ok=okv(w); for (auto &p:M.stale[k]) if (!ok && now<p.first && okv(p.second)) { ok=true; c.count("stale_reads"); }
			if (!ok) { bool was=false; for (auto &p:M.stale[k]) if (okv(p.second)) was=true; c.fail(was?"config:stale":"config:read",d+"read "+(g==ABSENT?"nothing":quote(g))+" expected "+(w==ABSENT?"nothing":quote(w))+(was?fmt(" (a value another writer replaced more than 3 s ago, %d tables)",ntab):"")); bad=true; } c.count("reads"); }
	}
	for (int i=0;i<ntab && !bad;i++) { if (rawAll(ext[i])!=m[i].db) { c.fail("config:stored","the stored table differs from the changes made"); bad=true; } ConfigurationRecordMap rm=t[i]->getAllPairs(); KV g; for (auto &p:rm) g[p.first]=p.second.value(); if (g!=m[i].db) c.fail("config:allpairs",fmt("%zu pairs listed, %zu stored",g.size(),m[i].db.size())); }
	for (int i=0;i<ntab;i++) sqlite3_close(ext[i]); vclockOff(); c.count("ops",n); c.coverHash(r.next());
	if (c.caseNo<3) c.sample(fmt("%d operations on %d tables, %zu keys, hostile text %d",n,ntab,keys.size(),hostile));
}

// ------------------------------------------------------------------ concurrent threads on one table
enum { CSET, CGET, CREM, CDEF, CPURGE };
struct CfgSys { ConfigurationTable *t; std::vector<std::string> keys; std::atomic<int> next;
	bool blocking(const Plan&) { return false; } bool enabled(const Plan&) { return true; } Plan feed(const Plan&p) { return p; }
	long exec(const Plan &p) { const std::string &k=keys[p.key]; switch (p.kind) { case CSET: return t->set(k,p.arg); case CGET: try { std::string s=t->getStr(k); return s=="default"?-2:atol(s.c_str()); } catch (ConfigurationTableKeyNotFound &) { return -1; } case CREM: { return t->remove(k); } case CDEF: return t->defines(k); case CPURGE: t->purge(); return 0; } return 0; }
	std::string text(const COp &o) { static const char *n[]={"set","get","remove","defines","purge"}; return fmt("%s(k%ld,%ld)=%ld",n[o.kind],o.key,o.arg,o.res); } };
struct CfgModel { long v[3]={-1,-1,-1}; long none[3]={-1,-1,-1}; std::string key() const { return std::string((const char*)v,sizeof v); } bool step(const COp &o) { long &x=v[o.key]; switch (o.kind) { case CSET: x=o.arg; return o.res==1; case CGET: return o.res==x; case CREM: { bool had=x!=none[o.key]; x=none[o.key]; return o.res==had; } case CDEF: return o.res==(x!=-1); } return true; } };
SCENARIO(config_lin)
{
	quiet(); Scope S; Rng &r=c.rng; ConfigurationKeyMap sch; sch["k1"]=mkKey("k1","default"); CfgSys s; s.t=S.open(":memory:",sch); s.keys={"k0","k1","k2"}; CfgModel m; m.none[1]=m.v[1]=-2; int nt=2+r.below(3), total=r.range(6,24), nk=1+r.below(3); long val=1;
	std::vector<std::vector<Plan>> plan(nt); for (int i=0;i<total;i++) { int d=r.below(100); int k=d<30?CSET:d<70?CGET:d<82?CREM:d<90?CDEF:CPURGE; plan[r.below(nt)].push_back(Plan{k,(long)r.below(nk),val++}); }
	if (r.chance(1,2)) vclockSet(1000000000000LL), vclockStepPerRead(1000000);	// the clock keeps forcing cache purges
	Driver<CfgSys> d(c,s); if (!d.run(plan,r.below(4),0)) { c.fail("config:stuck",d.stuckText); abandonProcess(); } vclockOff();
	d.judge(m,"config:notlin"); c.count("ops",d.hist.size()); c.coverHash(perturbSignature()^hash64(d.text())); if (c.caseNo%60==1) c.sample(d.text());
}

// ------------------------------------------------------------------ crashes and failing writes
SCENARIO(config_crash)
{
	quiet(); Scope S; Rng &r=c.rng; std::string f=S.file(c); struct Sh { volatile int started, acked, opened; }; Sh *sh=(Sh*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	std::vector<std::string> keys={"a","b","c","d","Log.Level"}; { sqlite3 *d=rawOpen(f); ConfigurationTable *t=S.open(f); for (auto &k:keys) if (r.chance(1,2)) t->set(k,"before"); sqlite3_close(d); } sqlite3 *d0=rawOpen(f); KV init=rawAll(d0); sqlite3_close(d0);
	struct Op { int kind; std::string k, v; }; std::vector<Op> ops; int n=r.range(1,25); for (int i=0;i<n;i++) ops.push_back(Op{(int)r.below(4),r.pick(keys),fmt("v%d-",i)+(r.chance(1,8)?std::string(r.range(1000,20000),'x'):"")});
	int at=r.chance(1,6)?-1:r.below(n*7+10);
	pid_t p=fork(); if (!p) { gFsOps=0; ConfigurationTable t(f.c_str()); sh->opened=1; gFsOps=0; gCrashAfter=at; for (int i=0;i<n;i++) { sh->started=i+1; bool ok=ops[i].kind<3?t.set(ops[i].k,ops[i].v):(t.remove(ops[i].k),true); if (!ok) _exit(7); sh->acked=i+1; } if (r.chance(1,2)) kill(getpid(),SIGKILL); _exit(0); }
	int st; if (p<0) { perror("fork"); exit(95); } while (waitpid(p,&st,0)<0 && errno==EINTR); int ack=sh->acked, sta=sh->started; munmap(sh,4096);
	if (WIFEXITED(st) && WEXITSTATUS(st)==7) { c.fail("crash:refused","set refused without any fault"); return; } if (WIFEXITED(st) && WEXITSTATUS(st)) { c.fail("crash:child",fmt("child status %x",st)); return; }
	KV a=init; for (int i=0;i<ack;i++) if (ops[i].kind<3) a[ops[i].k]=ops[i].v; else a.erase(ops[i].k); KV b=a; if (sta>ack) { if (ops[ack].kind<3) b[ops[ack].k]=ops[ack].v; else b.erase(ops[ack].k); }
	// read through a new table first (as a restarted program would), then directly
	ConfigurationTable *t=S.open(f); std::string log=fmt("killed at file operation %d: %d of %d changes acknowledged, %d started; ",at,ack,n,sta); bool isA=true,isB=true; for (auto &k:keys) { std::string g; bool has=true; try { g=t->getStr(k); } catch (ConfigurationTableKeyNotFound &) { has=false; } if (k=="Log.Level") { if (!(has && g==(a.count(k)?a[k]:"NOTICE"))) isA=false; if (!(has && g==(b.count(k)?b[k]:"NOTICE"))) isB=false; } else { if (has!=(bool)a.count(k) || (has && g!=a[k])) isA=false; if (has!=(bool)b.count(k)||(has && g!=b[k])) isB=false; } log+=k+"="+(has?quote(g,20):"none")+" "; }
	if (!isA && !isB) c.fail("crash:lost",log+" is neither the state before nor after the interrupted change"); sqlite3 *d=rawOpen(f); KV all=rawAll(d); sqlite3_close(d); if (all!=a && all!=b) c.fail("crash:stored",log+fmt(" the database holds %zu keys",all.size()));
	c.count(WIFSIGNALED(st)&&sta>ack?"crashes_inside_a_change":"crashes_between_changes"); c.cover(fmt("%d/%d/%d",at,ack,(int)ops[std::max(0,sta-1)].kind)); if (c.caseNo<3) c.sample(log);
}
SCENARIO(config_fault)
{
	quiet(); Scope S; Rng &r=c.rng; std::string f=S.file(c); vclockSet(1000000000000LL); ConfigurationTable *t=S.open(f); KV m; std::vector<std::string> keys={"a","b","c"}; int n=r.range(5,60); std::string d;
	for (int i=0;i<n;i++) { std::string k=r.pick(keys); bool inj=r.chance(1,3); gFsOps=0; gFaultsDone=0; gFaultLen=r.chance(1,2)?1:1000; gFaultAfter=inj?(int)r.below(6):-1; bool ok; std::string v=fmt("v%d",i); int kind=r.below(4);
		if (kind<3) ok=t->set(k,v); else ok=t->remove(k); gFaultAfter=-1; bool hit=gFaultsDone>0; if (hit) c.count("faults_hit"); if (!ok && !hit && kind<3) { c.fail("fault:refused",fmt("step %d: set refused without a fault",i)); break; }
		if (ok) { if (kind<3) m[k]=v; else m.erase(k); } else if (kind==3 && !hit) { m.erase(k); }
		// a refused change must not show, neither at once nor after the caches were dropped
		for (int ph=0;ph<2;ph++) { if (ph) { t->purge(); } for (auto &q:keys) { std::string g; bool has=true; try { g=t->getStr(q); } catch (ConfigurationTableKeyNotFound &) { has=false; } if (has!=(bool)m.count(q)||(has&&g!=m[q])) { c.fail(ok?"fault:lost":"fault:leaked",fmt("step %d: %s of %s reported %s (fault %d), but %s reads %s, expected %s (phase %d)",i,kind<3?"set":"remove",k.c_str(),ok?"success":"failure",hit,q.c_str(),has?g.c_str():"none",m.count(q)?m[q].c_str():"none",ph)); i=n; ph=2; break; } } }
		c.count("fault_steps"); }
	c.cover(fmt("%llu",(unsigned long long)r.next())); vclockOff();
}
// Another process holds the database locked.
SCENARIO(config_locked)
{
	quiet(); Scope S; Rng &r=c.rng; std::string f=S.file(c); vclockSet(1000000000000LL); ConfigurationKeyMap sch; sch["withdef"]=mkKey("withdef","the default"); ConfigurationTable *t=S.open(f,sch); t->set("withdef","stored"); t->set("plain","one"); bool purgeFirst=r.chance(1,2); if (purgeFirst) t->purge(); sqlite3 *x=rawOpen(f); rawExec(x,"BEGIN EXCLUSIVE"); bool rd=false;
	if (r.chance(1,2)) { bool ok=t->set("plain","two"); if (ok) c.fail("locked:set-claimed","set reported success while the database was locked"); if (r.chance(1,2)) t->set("plain",7L); auto look=[&](bool dropped){ if (!purgeFirst) for (int i=dropped /* the failed remove dropped the cache: the known finding on uncached reads */;i<2;i++) { std::string k=i?"withdef":"plain", w=i?"stored":"one", g; try { g=t->getStr(k); } catch (ConfigurationTableKeyNotFound &) { g="none"; } if (g!=w) c.fail("locked:changed",k+" reads "+g+" after a change which was reported as failed (database locked)"); } }; look(false); bool rm=t->remove("plain"); if (rm) c.fail("locked:remove-claimed","remove reported success while the database was locked"); look(true); }
	else { rd=true; for (int i=0;i<2;i++) { std::string k=i?"withdef":"plain", w=i?"stored":"one", g; try { g=t->getStr(k); } catch (ConfigurationTableKeyNotFound &) { g="none"; } if (g!=w) { if (purgeFirst) c.fail("locked:read-uncached",k+" reads "+g+" instead of "+w+" while another process has the database locked"); else c.fail("locked:read-cached",k+" reads "+g+" although it was cached"); } } }
	rawExec(x,"ROLLBACK"); sqlite3_close(x); if (!rd) for (int ph=0;ph<2;ph++) { if (ph) t->purge(); std::string g; try { g=t->getStr("plain"); } catch (ConfigurationTableKeyNotFound &) { g="none"; } if (g!="one") c.fail("locked:changed","after a refused change the value reads "+g+(ph?" once the caches were dropped":"")); if (ph) { sqlite3 *y=rawOpen(f); if (rawAll(y)["plain"]!="one") c.fail("locked:changed","a refused change is in the database"); sqlite3_close(y); } if (ph && (!t->set("plain","three")||t->getStr("plain")!="three")) c.fail("locked:after","table does not work after the lock is gone"); }
	else { vclockAdvance(3000000); for (int i=0;i<2;i++) { std::string k=i?"withdef":"plain", w=i?"stored":"one", g; try { g=t->getStr(k); } catch (ConfigurationTableKeyNotFound &) { g="none"; } if (g!=w) c.fail("locked:not-recovered",k+" still reads "+g+" 3 s after the lock is gone"); } }
	c.count("lock_episodes"); c.cover(fmt("%d%d",purgeFirst,rd)); vclockOff();
}

// ------------------------------------------------------------------ typed reads
SCENARIO(config_typed)
{
	quiet(); Scope S; Rng &r=c.rng; vclockSet(1000000000000LL); ConfigurationKeyMap sch; sch["d.num"]=mkKey("d.num","42"); sch["d.vec"]=mkKey("d.vec","1 0x10 3"); sch["d.flt"]=mkKey("d.flt","2.5"); ConfigurationTable *t=S.open(":memory:",sch); bool bad=false;
	for (int i=0;i<60&&!bad;i++) { std::string k=fmt("k%d",(int)r.below(5)); int kind=r.below(9); std::string v; 
		if (kind==0||kind==1) { long n=r.chance(1,4)?(r.chance(1,2)?LONG_MAX-(long)r.below(3):LONG_MIN+(long)r.below(3)):r.chance(1,2)?r.range(-20,20):(long)(int)r.next(); bool neg=n<0; unsigned long u=neg?0-(unsigned long)n:n; int base=r.below(3); v=base==0?fmt("%lu",u):base==1?fmt("0x%lx",u):fmt("0%lo",u); if (neg) v="-"+v; if (r.chance(1,6)) v=" "+v; bool junk=r.chance(1,6); if (junk) v+=r.chance(1,2)?" ":"zz"; t->set(k,v); long g=t->getNum(k), g2=t->getNum(k); if (g!=n||g2!=n) { c.fail("typed:num",quote(v)+fmt(" reads as %ld then %ld",g,g2)); bad=true; } if (t->getBool(k)!=(n!=0)) { c.fail("typed:bool",quote(v)+" as boolean"); bad=true; } c.count("numbers"); }
		else if (kind==7) { long n=r.chance(1,3)?(r.chance(1,2)?LONG_MAX-(long)r.below(3):LONG_MIN+(long)r.below(3)):r.chance(1,2)?(long)r.next():(long)r.next()>>r.below(64); if (!t->set(k,n)) { c.fail("typed:set-refused",fmt("%ld",n)); break; } if (r.chance(1,2)) t->purge(); long g=t->getNum(k); std::string s=t->getStr(k); if (g!=n||s!=fmt("%ld",n)||t->getBool(k)!=(n!=0)||t->getFloat(k)!=(float)strtod(s.c_str(),NULL)) { c.fail("typed:setnum",fmt("set to the number %ld, reads back as %ld, text %s",n,g,quote(s).c_str())); bad=true; } c.count("numbers"); }
		else if (kind==8) { /* items which only begin with a number, or with none: one list element per word, the number it begins with or zero */ std::vector<unsigned> w; std::vector<std::string> ws; int n=r.range(1,8); for (int j=0;j<n;j++) { unsigned x=r.below(100000); std::string it=fmt("%u",x); switch (r.below(8)) { case 0: it+="abc"; break; case 1: it+=","+fmt("%d",(int)r.below(99)); break; case 2: it="x"+it; x=0; break; case 3: it+="."+fmt("%d",(int)r.below(99)); break; case 4: it+=r.chance(1,2)?"-3":":5/6"; break; case 5: it=fmt("0%o",x); break; case 6: it=fmt("0X%X",x); break; default: break; } w.push_back(x); ws.push_back(it); v+=std::string(r.range(j?1:0,3),' ')+it; } v+=std::string(r.below(3),' '); t->set(k,v); std::vector<unsigned> g=t->getVector(k); std::vector<std::string> gs=t->getVectorOfStrings(k); if (g!=w||gs!=ws||t->getVectorLength(k)!=w.size()) { c.fail("typed:vector",quote(v)+fmt(" reads as %zu numbers, expected %zu",g.size(),w.size())); bad=true; } c.count("vectors"); }
		else if (kind==2) { t->set(k,""); for (int z=0;z<2;z++) if (t->getNum(k)!=0||t->getFloat(k)!=0||t->getBool(k)||!t->getVector(k).empty()||!t->getVectorOfStrings(k).empty()||t->getVectorLength(k)!=0||t->getStr(k)!="") { c.fail("typed:empty","empty value"); bad=true; } }
		else if (kind==3) { float f; switch (r.below(3)) { case 0: f=(r.unit()-0.5)*100; break; case 1: f=r.range(-5,5); break; default: f=(r.unit()-0.5)*pow(10,r.range(-30,30)); } v=fmt(r.chance(1,2)?"%.9g":r.chance(1,3)?"%.9E":r.chance(1,4)?"%a":"%.9e",f); if (r.chance(1,8)&&v.compare(0,2,"0.")==0) v.erase(0,1); if (r.chance(1,8)) v=(v[0]!='-'&&r.chance(1,2)?"+":" ")+v; if (r.chance(1,5)) v+=r.chance(1,2)?" dB":" 3.5"; t->set(k,v); float g=t->getFloat(k); if (g!=f||t->getFloat(k)!=f) { c.fail("typed:float",quote(v)+fmt(" reads as %.9g",g)); bad=true; } c.count("floats"); }
		else if (kind==4) { std::vector<unsigned> w; int n=r.below(12); for (int j=0;j<n;j++) { unsigned x=r.chance(1,3)?r.next():r.below(1000); w.push_back(x); v+=std::string(r.range(j?1:0,3),' ')+(r.chance(1,4)?fmt("0x%x",x):r.chance(1,6)?fmt("0%o",x):fmt("%u",x)); } v+=std::string(r.below(3),' '); t->set(k,v); std::vector<unsigned> g=t->getVector(k); if (g!=w||t->getVectorLength(k)!=w.size()) { c.fail("typed:vector",quote(v)+fmt(" reads as %zu numbers, expected %zu",g.size(),w.size())); bad=true; } c.count("vectors"); }
		else if (kind==5) { std::vector<std::string> w; int n=r.below(12); for (int j=0;j<n;j++) { std::string x=fmt("w%d.%d\t\"'",j,(int)r.below(99)); x.resize(r.range(1,x.size())); w.push_back(x); v+=std::string(r.range(j?1:0,3),' ')+x; } v+=std::string(r.below(3),' '); if (!t->set(k,v)) { c.fail("typed:set-refused",quote(v)); bad=true; break; } std::vector<std::string> g=t->getVectorOfStrings(k); if (g!=w) { c.fail("typed:strings",quote(v)+fmt(" reads as %zu words, expected %zu",g.size(),w.size())); bad=true; } c.count("vectors"); }
		else { int what=r.below(6); bool thrown=false; std::string kk="missing.key"; try { switch (what) { case 0: t->getStr(kk); break; case 1: t->getNum(kk); break; case 2: t->getFloat(kk); break; case 3: t->getBool(kk); break; case 4: t->getVector(kk); break; default: t->getVectorOfStrings(kk); } } catch (ConfigurationTableKeyNotFound &e) { thrown=e.key()==kk; } catch (...) {} if (!thrown||t->defines(kk)) { c.fail("typed:missing",fmt("reading an undefined key as type %d did not report it",what)); bad=true; } if (t->getNum("d.num")!=42||t->getVector("d.vec")!=std::vector<unsigned>{1,16,3}||t->getFloat("d.flt")!=2.5f||!t->getBool("d.num")) { c.fail("typed:default","default values"); bad=true; } c.count("missing"); }
		c.cover(quote(v)); if (c.caseNo<1&&i<4) c.sample(quote(v)); }
	vclockOff();
}
#include "h_config2.h"
