// Database helpers and performance reports.
#include "rt.h"
#include "leak.h"
#include <dlfcn.h>
#include <sqlite3.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <atomic>
#include <climits>
#include "Configuration.h"
#include "Logger.h"
#include "sqlite3util.h"
#include "Reporting.h"
using namespace rt;
std::string sqlite_single_lookup_string(sqlite3*, const char*, const char*, const char*, const char*);	// defined, but not declared by the header

// ---- the boundary to sqlite: track handles, notice busy results and end the blocking transaction after some of them
static pthread_mutex_t gHm=PTHREAD_MUTEX_INITIALIZER; static std::vector<sqlite3*> gHandles; static volatile bool gTrackHandles;
static sqlite3 *gBlocker; static int gReleaseAt; static volatile int gBusySeen; static __thread int tIn;
template<class F> static F realFn(const char *n) { return (F)dlsym(RTLD_NEXT,n); }
static int busy(int r) { if (!tIn && (r==SQLITE_BUSY||r==SQLITE_LOCKED)) { tIn++; gBusySeen=gBusySeen+1; if (gReleaseAt>0 && gBusySeen==gReleaseAt && gBlocker) { sqlite3_exec(gBlocker,"ROLLBACK",0,0,0); } tIn--; } return r; }
extern "C" int sqlite3_open(const char *f, sqlite3 **db) { typedef int (*fn)(const char*,sqlite3**); static fn real=realFn<fn>("sqlite3_open"); int r=real(f,db); if (gTrackHandles && r==SQLITE_OK) { pthread_mutex_lock(&gHm); gHandles.push_back(*db); pthread_mutex_unlock(&gHm); } return r; }
extern "C" int sqlite3_prepare_v2(sqlite3 *d, const char *q, int n, sqlite3_stmt **s, const char **t) { typedef int (*fn)(sqlite3*,const char*,int,sqlite3_stmt**,const char**); static fn real=realFn<fn>("sqlite3_prepare_v2"); return busy(real(d,q,n,s,t)); }
extern "C" int sqlite3_step(sqlite3_stmt *s) { typedef int (*fn)(sqlite3_stmt*); static fn real=realFn<fn>("sqlite3_step"); return busy(real(s)); }
// ---- the committer threads' ten second sleep: a step at the harness's command
static pthread_mutex_t gSm=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t gSc=PTHREAD_COND_INITIALIZER; static int gTicks, gSleepers, gSleptTotal; 
extern "C" unsigned sleep(unsigned n) { if (syscall(SYS_gettid)==syscall(SYS_getpid)) { struct timespec ts={(time_t)n,0}; nanosleep(&ts,NULL); return 0; }
	pthread_mutex_lock(&gSm); int t=gTicks; gSleepers++; gSleptTotal++; while (gTicks==t) pthread_cond_wait(&gSc,&gSm); gSleepers--; pthread_mutex_unlock(&gSm); return 0; }
extern "C" int fdatasync(int) { return 0; }
extern "C" int fsync(int) { return 0; }
static int slept() { pthread_mutex_lock(&gSm); int n=gSleptTotal; pthread_mutex_unlock(&gSm); return n; }
static void tick() { pthread_mutex_lock(&gSm); gTicks++; pthread_cond_broadcast(&gSc); pthread_mutex_unlock(&gSm); }
static int sleepers() { pthread_mutex_lock(&gSm); int n=gSleepers; pthread_mutex_unlock(&gSm); return n; }

static const char *dirArg() { static std::string d; FILE *f=fopen("/proc/self/cmdline","r"); std::string s; int ch; while (f && (ch=fgetc(f))!=EOF) s+=(char)ch; if (f) fclose(f); size_t p=s.find(std::string("--dir\0",6)); d=p==std::string::npos?"/nonexistent":s.substr(p+6).c_str(); return d.c_str(); }
static std::string gReportsPath=std::string(dirArg())+"/greports.db";
ConfigurationTable gConfig;
ReportingTable gReports(gReportsPath.c_str());

static sqlite3 *rawOpen(const std::string &f) { sqlite3 *d=0; sqlite3_open_v2(f.c_str(),&d,SQLITE_OPEN_READWRITE|SQLITE_OPEN_CREATE,NULL); return d; }
static bool rawExec(sqlite3 *d, const std::string &q) { tIn++; int r=sqlite3_exec(d,q.c_str(),0,0,0); tIn--; return r==SQLITE_OK; }
static void rmdb(const std::string &f) { for (const char *x:{"","-journal","-wal","-shm"}) syscall(SYS_unlink,(f+x).c_str()); }
static void limits() { struct rlimit rl; getrlimit(RLIMIT_NOFILE,&rl); if (rl.rlim_cur<rl.rlim_max) { rl.rlim_cur=std::min<rlim_t>(rl.rlim_max,65536); setrlimit(RLIMIT_NOFILE,&rl); } syslogCapture(true); }
static std::string anyText(Rng &r, int maxLen=40) {
	static const char *parts[]={"'","\"","''","\"\"","%s","%","_",";","--","\\","(",")"," OR 1=1","'; DROP TABLE T; --","\n","\t","\xc3\xa9","*","`","[","]","NULL","K","V","\r","\r\n","\x01","\x7f","\x1b[0m","\xff"};
	std::string s; int n=r.chance(1,30)?r.range(100,5000):r.chance(1,8)?0:r.range(1,maxLen); while ((int)s.size()<n) { if (r.chance(1,4)) s+=parts[r.below(30)]; else s+="abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .:/-"[r.below(47)]; } return s; }
static std::string ident(Rng &r) { static const char *n[]={"K","KEYSTRING","Name","a_very_long_column_name_which_nobody_would_ever_want_to_type_but_which_is_perfectly_legal_in_a_database_schema","ID2"}; return n[r.below(5)]; }

struct RowT { std::string k; bool kint; unsigned ki; std::string v; unsigned u; int grp;  long long w; };
static int openStmts(sqlite3 *d) { int n=0; for (sqlite3_stmt *s=0;(s=sqlite3_next_stmt(d,s));) n++; return n; }

SCENARIO(sql_lookup)
{
	limits(); Rng &r=c.rng; std::string f=r.chance(1,3)?tmpDir()+fmt("/l%llu.db",(unsigned long long)c.caseNo):":memory:"; if (f[0]!=':') rmdb(f); sqlite3 *d=rawOpen(f);
	bool kint=r.chance(1,3); std::string K=ident(r), T=r.chance(1,2)?"T":r.chance(1,5)?"A_TABLE_"+std::string(r.range(50,400),'Z'):"SOME_TABLE"; if (r.chance(1,10)) K+="_"+std::string(r.range(20,300),'q'); rawExec(d,"CREATE TABLE "+T+" ("+K+(kint?" INTEGER":" TEXT")+" UNIQUE, V TEXT, U INTEGER, GRP INTEGER, W INTEGER)");
	std::vector<RowT> rows; std::set<std::string> used; int n=r.range(0,12);
	for (int i=0;i<n;i++) { RowT x; x.kint=kint; x.ki=r.chance(1,4)?(unsigned)r.next():r.below(40)+(r.chance(1,3)?4294967260u:0); x.k=kint?fmt("%u",x.ki):anyText(r,r.chance(1,2)?3:30); if (!used.insert(x.k).second) continue; x.v=anyText(r); x.u=r.chance(1,3)?(unsigned)r.next():r.below(1000); x.grp=r.below(3); x.w=(long long)r.next()>>r.below(64);
		sqlite3_stmt *s; tIn++; sqlite3_prepare_v2(d,("INSERT INTO "+T+" VALUES (?,?,?,?,?)").c_str(),-1,&s,0); if (kint) sqlite3_bind_int64(s,1,x.ki); else sqlite3_bind_text(s,1,x.k.data(),x.k.size(),SQLITE_TRANSIENT); sqlite3_bind_text(s,2,x.v.data(),x.v.size(),SQLITE_TRANSIENT); sqlite3_bind_int64(s,3,x.u); sqlite3_bind_int(s,4,x.grp); sqlite3_bind_int64(s,5,x.w); if (sqlite3_step(s)==SQLITE_DONE) rows.push_back(x); sqlite3_finalize(s); tIn--; }
	int ch0=sqlite3_total_changes(d); const char *tn=T.c_str(), *kn=K.c_str();
	auto find=[&](const std::string &k)->const RowT* { for (auto &x:rows) if (x.k==k) return &x; return NULL; };
	std::string ex; auto col=[&](const char *n)->const char* { ex=n; if (r.chance(1,4)) { int t=r.chance(1,3)?r.range(20,120):r.range(1,12); for (int i=0;i<t;i++) ex+=n[0]=='V'?"||''":"+0"; } return ex.c_str(); };
	for (int it=0;it<25;it++) {
		std::string k; if (rows.size()&&r.chance(2,3)) k=rows[r.below(rows.size())].k; else k=kint?fmt("%u",(unsigned)r.below(60)):anyText(r,4); if (!kint&&r.chance(1,8)&&rows.size()) { k=rows[0].k+"x"; } 
		const RowT *x=find(k); int kind=r.below(8); note(fmt("lookup kind %d key ",kind)+quote(k)); unsigned ki=kint?(unsigned)strtoul(k.c_str(),0,10):0; std::string got="untouched"; bool ok; char *p=(char*)1; unsigned uv=77;
		auto bad=[&](const char *w, const std::string &g){ c.fail(std::string("sql:")+w,fmt("table %s key column %s key %s: got %s, stored: %s",tn,kn,quote(k).c_str(),quote(g).c_str(),x?(quote(x->v)+fmt(" %u",x->u)).c_str():"no such row")); };
		switch (kind) {
		case 0: ok=kint&&r.chance(1,2)?sqlite_single_lookup(d,tn,kn,ki,col("V"),got):sqlite_single_lookup(d,tn,kn,k.c_str(),col("V"),got); if (ok!=!!x || (ok?got!=x->v:got!="untouched")) bad("lookup",got); break;
		case 1: ok=kint&&r.chance(1,2)?sqlite3_single_lookup(d,tn,kn,ki,col("V"),p):sqlite3_single_lookup(d,tn,kn,k.c_str(),col("V"),p); if (ok!=!!x || (ok?!p||x->v!=p:p!=NULL)) bad("lookup-chars",ok&&p?p:"nothing"); if (ok) free(p); break;
		case 2: ok=sqlite3_single_lookup(d,tn,kn,k.c_str(),col("U"),uv); if (ok!=!!x || (ok?uv!=x->u:uv!=77)) bad("lookup-unsigned",fmt("%u",uv)); break;
		case 3: ok=sqlite3_exists(d,tn,kn,k.c_str()); if (ok!=!!x) bad("exists",ok?"yes":"no"); break;
		case 4: got=kint&&r.chance(1,2)?sqlite_single_lookup_string(d,tn,kn,ki,col("V")):sqlite_single_lookup_string(d,tn,kn,k.c_str(),col("V")); if (got!=(x?x->v:"")) bad("lookup-string",got); break;
		case 5: { sqlQuery *q=kint&&r.chance(1,2)?new sqlQuery(d,tn,"V,U,GRP,W",kn,ki):new sqlQuery(d,tn,"V,U,GRP,W",kn,k.c_str()); ok=q->sqlSuccess(); if (ok!=!!x || (ok?q->getResultText()!=x->v||q->getResultText(0)!=x->v||q->getResultInt(1)!=x->u||q->getResultInt(2)!=x->grp||q->getResultInt(3)!=x->w||q->sqlResultSize()!=4:q->sqlResultSize()!=0||q->getResultText()!=""||q->getResultInt(1)!=0)) bad("query",q->getResultText()); if (ok&&q->sqlStep()) bad("query-more",q->getResultText()); delete q; break; }
		case 6: { int g=r.below(4); bool star=r.chance(1,3); std::string cond=r.chance(1,4)?"":fmt("WHERE GRP == %d",g); bool all=cond.empty(); cond+=" ORDER BY rowid"; sqlQuery q(d,tn,star?"*":"V,U",cond.c_str()); int cv=star?1:0; bool more=q.sqlSuccess(); size_t seen=0; for (auto &y:rows) { if (!all&&y.grp!=g) continue; if (!more) { bad("iterate-short",fmt("%zu rows",seen)); break; } if (q.getResultText(cv)!=y.v||q.getResultInt(cv+1)!=y.u||q.sqlResultSize()!=(star?5u:2u)) bad("iterate",q.getResultText(cv)); seen++; more=q.sqlStep(); } if (more) bad("iterate-more",q.getResultText(cv)); if (q.sqlStep()||q.sqlSuccess()||q.getResultText()!="") bad("iterate-end",""); c.count("rows_iterated",seen); break; }
		case 7: { switch (r.below(4)) { case 0: { sqlQuery q(d,"NO_SUCH_TABLE","V",kn,k.c_str()); ok=q.sqlSuccess()||q.sqlResultSize()||q.getResultText()!=""||q.getResultInt()||q.sqlStep(); break; } case 1: ok=sqlite_single_lookup(d,tn,"NOCOLUMN",k.c_str(),"V",got)||got!="untouched"; break; case 2: ok=sqlite3_single_lookup(d,"NO_SUCH_TABLE",kn,5u,"V",p)||p!=NULL||sqlite_single_lookup(d,"NO_SUCH_TABLE",kn,5u,"V",got)||got!="untouched"||sqlite3_single_lookup(d,tn,kn,5u,"NOCOLUMN",p)||p!=NULL; break; default: ok=sqlite3_exists(d,"NO_SUCH_TABLE",kn,k.c_str())||sqlite3_single_lookup(d,"NO_SUCH_TABLE",kn,k.c_str(),"U",uv)||uv!=77; } if (ok) bad("no-table",got); break; }
		}
		if (x) c.count("hits"); else c.count("misses"); c.cover(fmt("%d %d %d %zu ",kind,(int)kint,!!x,K.size())+k);
		if (openStmts(d)) { c.fail("sql:leak-stmt",fmt("lookup kind %d left a statement open",kind)); break; } if (sqlite3_total_changes(d)!=ch0) c.fail("sql:changed","a lookup changed the database");
	}
	// commands: executed or refused, never half
	{ int rc=-99; std::string v=anyText(r), q="UPDATE "+T+" SET V="; size_t cnt=rows.size(); std::string lit="'"; for (char ch:v) { if (ch=='\'') lit+='\''; lit+=ch; } lit+="'"; bool ok=sqlite_command(d,(q+lit).c_str(),&rc); if (!ok) c.fail("sql:command","valid command refused"); if (rc!=SQLITE_DONE) c.fail("sql:command-rc",fmt("result code %d for a completed update",rc)); for (size_t i=0;i<cnt;i++) { std::string g; if (!sqlite_single_lookup(d,tn,kn,rows[i].k.c_str(),"V",g)||g!=v) { c.fail("sql:command-effect",quote(g)+" expected "+quote(v)); break; } }
	  ch0=sqlite3_total_changes(d); rc=0; if (sqlite_command(d,("UPDATE "+T+" SET NOPE=1").c_str(),&rc)||rc==0||rc==SQLITE_DONE||rc==SQLITE_ROW) c.fail("sql:bad-command",fmt("invalid command reported as done, code %d",rc)); if (cnt&&sqlite3_command(d,("INSERT INTO "+T+" ("+K+") VALUES ("+(kint?rows[0].k:[&]{std::string l="'"; for (char ch:rows[0].k) { if (ch=='\'') l+='\''; l+=ch; } return l+"'";}())+")").c_str())) c.fail("sql:unique","constraint violation reported as done"); if (sqlite3_total_changes(d)!=ch0) c.fail("sql:bad-effect","refused command changed the database"); if (!sqlite3_command(d,("SELECT * FROM "+T).c_str())) c.fail("sql:select-command","SELECT reported as failed"); if (openStmts(d)) c.fail("sql:leak-stmt","a command left a statement open"); }
	// no room left: refused and reported as such
	if (r.chance(1,3)) { rawExec(d,"PRAGMA max_page_count=1"); ch0=sqlite3_total_changes(d); int rc=0; size_t big=r.range(300000,400000); if (sqlite_command(d,("INSERT INTO "+T+" ("+K+",V) VALUES ('2000000000', zeroblob("+fmt("%zu",big)+"))").c_str(),&rc)) c.fail("sql:full","command which found no room reported as done"); if (rc==SQLITE_DONE||rc==SQLITE_OK||rc==SQLITE_ROW) c.fail("sql:full",fmt("result code %d for a command which found no room",rc)); std::string huge(big,'h'); if (r.chance(1,2)&&sqlite_set_attr(d,"huge",huge.c_str())) c.fail("sql:full","attribute which found no room reported as set"); if (sqlite3_exists(d,tn,kn,"2000000000")) c.fail("sql:full","refused row exists"); if (openStmts(d)) c.fail("sql:leak-stmt","a refused command left a statement open"); c.count("refused_for_room"); }
	if (f[0]!=':'&&r.chance(1,2)) { sqlite3 *ro=0; sqlite3_open_v2(f.c_str(),&ro,SQLITE_OPEN_READONLY,NULL); if (sqlite_command(ro,("DELETE FROM "+T).c_str())&&rows.size()) c.fail("sql:read-only","command on a read only database reported as done"); if (sqlite_set_attr(ro,"x","y")) c.fail("sql:read-only","attribute reported as set in a read only database"); for (size_t i=0;i<rows.size();i++) if (!sqlite3_exists(ro,tn,kn,rows[i].k.c_str())) { c.fail("sql:read-only","row not found in a read only database"); break; } if (sqlite_get_attr(ro,"x")=="y") c.fail("sql:read-only","attribute set in a read only database"); if (openStmts(ro)) c.fail("sql:leak-stmt","a statement was left open in a read only database"); sqlite3_close(ro); c.count("read_only"); }
	if (sqlite3_close(d)!=SQLITE_OK) c.fail("sql:close","database cannot be closed"); if (f[0]!=':') rmdb(f);
	if (c.caseNo<2) c.sample(fmt("table %s, %s key column %s, %zu rows, lookups, queries, commands",tn,kint?"integer":"text",kn,rows.size()));
}

SCENARIO(sql_attr)
{
	limits(); Rng &r=c.rng; std::string f=tmpDir()+fmt("/a%llu.db",(unsigned long long)c.caseNo); rmdb(f); sqlite3 *d=rawOpen(f); std::map<std::string,std::string> m; std::vector<std::string> names={"version","a","A","ATTR_NAME","ATTR_VALUE"}; for (int i=0;i<4;i++) names.push_back(anyText(r,10));
	rawExec(d,"CREATE TABLE OTHER (X TEXT)"); rawExec(d,"INSERT INTO OTHER VALUES ('keep')");
	int ops=r.range(3,20); for (int i=0;i<ops;i++) { const std::string &n=r.pick(names); note("attr "+quote(n));
		switch (r.below(6)) { case 0: case 1: { std::string v=anyText(r); if (!sqlite_set_attr(d,n.c_str(),v.c_str())) c.fail("attr:set","setting "+quote(n)+" failed"); else m[n]=v; c.count("attr_sets"); break; }
		case 2: if (!r.chance(1,3)) break; sqlite3_close(d); d=rawOpen(f); c.count("reopens"); break;
		default: { std::string g=sqlite_get_attr(d,n.c_str()); std::string w=m.count(n)?m[n]:""; if (g!=w) c.fail("attr:get",quote(n)+" reads "+quote(g)+" expected "+quote(w)); } } }
	for (auto &p:m) { std::string g=sqlite_get_attr(d,p.first.c_str()); if (g!=p.second) c.fail("attr:get",quote(p.first)+" reads "+quote(g)+" expected "+quote(p.second)); }
	if (m.size()) { sqlQuery q(d,"ATTR_TABLE","COUNT(*)",""); if ((size_t)q.getResultInt()!=m.size()) c.fail("attr:count",fmt("%d attributes stored, %zu set",(int)q.getResultInt(),m.size())); } { sqlQuery q(d,"OTHER","X",""); if (q.getResultText()!="keep"||q.sqlStep()) c.fail("attr:other","another table changed"); }
	if (openStmts(d)) c.fail("sql:leak-stmt","attributes left a statement open"); sqlite3_close(d); rmdb(f); c.coverHash(hash64(fmt("%d",ops))^c.rng.next());
}

SCENARIO(sql_busy)
{
	limits(); Rng &r=c.rng; std::string f=tmpDir()+fmt("/b%llu.db",(unsigned long long)c.caseNo); rmdb(f); sqlite3 *b=rawOpen(f); rawExec(b,"CREATE TABLE T (K TEXT UNIQUE, V TEXT, U INTEGER)"); rawExec(b,"INSERT INTO T VALUES ('k','value',42)"); sqlite3 *d=rawOpen(f); if (r.chance(1,2)) { sqlite_set_attr(d,"x","old"); }
	else rawExec(b,"CREATE TABLE ATTR_TABLE (ATTR_NAME TEXT PRIMARY KEY, ATTR_VALUE TEXT)"), rawExec(b,"INSERT INTO ATTR_TABLE VALUES('x','old')");
	for (int it=0;it<8;it++) {
		int retries=r.range(1,8), kind=r.below(8); if (kind>=4) retries=5; int rel=r.chance(1,3)?0:r.range(1,retries+2); bool must=rel>0&&rel<retries, never=rel==0;
		if (!rawExec(b,"BEGIN EXCLUSIVE")) { c.fail("busy:harness","cannot lock"); break; } rawExec(b,"UPDATE T SET V='dirty'"); gBlocker=b; gBusySeen=0; gReleaseAt=rel; note(fmt("busy kind %d retries %d release %d",kind,retries,rel));
		bool ok=false, good=true; std::string g="untouched"; char *p=NULL; unsigned u=77; std::string nv=fmt("v%d",it), before="old"; 
		switch (kind) { case 0: ok=sqlite3_exists(d,"T","K","k",retries); break; case 1: ok=sqlite3_single_lookup(d,"T","K","k","V",p,retries); good=ok?p&&!strcmp(p,"value"):!p; if (ok) free(p); break; case 2: ok=sqlite3_single_lookup(d,"T","K","k","U",u,retries); good=u==(ok?42:77); break;
		case 3: { int rc=0; ok=sqlite_command(d,"UPDATE T SET U=U+0",&rc,retries); good=ok==(rc==SQLITE_DONE); break; }
		case 4: ok=sqlite_single_lookup(d,"T","K","k","V",g); good=g==(ok?"value":"untouched"); break; case 5: { sqlQuery q(d,"T","V,U","K","k"); ok=q.sqlSuccess(); good=ok?q.getResultText()=="value"&&q.getResultInt(1)==42:q.sqlResultSize()==0&&q.getResultText()==""; break; }
		case 6: g=sqlite_get_attr(d,"x"); ok=g!=""; good=g==""||g=="old"; break;
		default: ok=sqlite_set_attr(d,"x",nv.c_str()); before=ok?nv:"old"; }
		gReleaseAt=0; gBlocker=NULL; int seen=gBusySeen; bool released=rel>0&&seen>=rel; if (!released) rawExec(b,"ROLLBACK");
		std::string what=fmt("kind %d, %d attempts allowed, database free after %d busy results, %d seen",kind,retries,rel,seen);
		if (!good) c.fail("busy:value",what+": wrong result "+quote(g)); if (must&&!ok) c.fail("busy:gave-up",what+": failed although the database became free in time"); if (never&&ok) c.fail("busy:claimed",what+": success reported while the database was locked");
		if (sqlite_get_attr(d,"x")!=before) c.fail("busy:effect",what+fmt(": attribute is %s",sqlite_get_attr(d,"x").c_str())); if (kind==7&&ok) sqlite_set_attr(d,"x","old");
		{ std::string v; if (!sqlite_single_lookup(d,"T","K","k","V",v)||v!="value") c.fail("busy:after",what+": afterwards reads "+quote(v)); } if (openStmts(d)) c.fail("sql:leak-stmt",what);
		c.count(ok?"busy_succeeded":"busy_failed"); c.count("busy_results",seen); c.cover(fmt("%d %d %d %d",kind,retries,rel,(int)ok));
	}
	{ unsigned u=5; char *p; sqlite3_exists(d,"T","K","k",0); sqlite3_single_lookup(d,"T","K","k","U",u,0); if (sqlite3_single_lookup(d,"T","K","k","V",p,0)) free(p); }	// no attempts at all: no result, no crash
	sqlite3_close(d); sqlite3_close(b); rmdb(f);
}

// ---------------------------------------------------------------- reports
struct RRow { unsigned long long value=0; long long clr=0, upd=0; bool operator==(const RRow &o) const { return value==o.value&&clr==o.clr&&upd==o.upd; } };
typedef std::map<std::string,RRow> RTab;
static RTab readReports(sqlite3 *d) { RTab m; sqlite3_stmt *s; tIn++; if (sqlite3_prepare_v2(d,"SELECT NAME,VALUE,CLEAREDTIME,UPDATETIME FROM REPORTING",-1,&s,0)==SQLITE_OK) { while (sqlite3_step(s)==SQLITE_ROW) { RRow x; x.value=sqlite3_column_int64(s,1); x.clr=sqlite3_column_int64(s,2); x.upd=sqlite3_column_int64(s,3); m[std::string((const char*)sqlite3_column_text(s,0),sqlite3_column_bytes(s,0))]=x; } sqlite3_finalize(s); } else m["?unreadable"]; tIn--; return m; }
static std::string show(const RTab &m) { std::string s; for (auto &p:m) s+=quote(p.first,40)+fmt("=%llu/%lld/%lld ",p.second.value,p.second.clr,p.second.upd); return s; }
static void stopCommitters() {
#ifndef __SANITIZE_THREAD__
	gReports.reportShutdown(); for (int i=0;i<2000&&sleepers();i++) { tick(); usleep(200); }
#endif
}
struct RScope { std::vector<ReportingTable*> t; std::string f; sqlite3 *raw; bool own;
	RScope(Ctx &c) { limits(); gTrackHandles=true; f=tmpDir()+fmt("/r%llu.db",(unsigned long long)c.caseNo); rmdb(f); raw=NULL; }
	ReportingTable *open() { if (!gReports.mReportRunning) gReports.mReportRunning=true; ReportingTable *x=new ReportingTable(f.c_str()); t.push_back(x); if (!raw) raw=rawOpen(f); return x; }
	~RScope() { waitFor([&]{ return sleepers()>=(int)t.size(); },5); stopCommitters(); for (auto x:t) delete x; if (raw) sqlite3_close(raw); gTrackHandles=false; for (auto h:gHandles) sqlite3_close(h); gHandles.clear(); rmdb(f); } };

SCENARIO(report_model)
{
	// a database which cannot be opened: failures are reported, nothing crashes
	if (c.rng.chance(1,10)) { limits(); ReportingTable t((tmpDir()+"/no/such/dir/r.db").c_str()); bool a=t.create("x"), b=t.create("x",1u,3u), d=t.max("x",5u), e=t.clear("x"), f=t.clear(), g=t.max("x",1u,5u), h=t.clear("x",1u); if (a||b||d||e||f||g||h) c.fail("report:unopened","an operation on a database which could not be opened reported success"); t.incr("x"); t.incr("x",2u); t.commit(); t.commit(); c.count("unopened"); }
	RScope S(c); Rng &r=c.rng; int64_t now=1000000000LL+r.below(1000000000); if (r.chance(1,4)) now+=2400000000LL; /* times also after 2038 */ auto setNow=[&]{ vclockSet(now*1000000); }; setNow();
	ReportingTable *t=S.open(); RTab M; std::map<std::string,unsigned> P; std::vector<std::string> names={"calls","GSM.RACH","a"}; bool hostile=r.chance(1,2);
	if (hostile) { static const char *odd[]={"VALUE","NAME","UPDATETIME","it's","say \"x\"","100%","%s%n","'","\"","a;b","x\" OR \"1\"=\"1"}; for (int i=0;i<4;i++) names.push_back(odd[r.below(11)]); names.push_back(std::string(r.range(60,400),'n')); }
	auto diff=[&](const char *w, const char *key){ RTab g=readReports(S.raw); if (!(g==M)) { c.fail(key,std::string("after ")+w+": stored "+show(g)+" expected "+show(M)); M=g; return true; } return false; };
	auto idx=[&](){ return (unsigned)(r.chance(1,4)?r.range(99999990,100000005):r.chance(1,4)?4294967290u+r.below(6):r.below(5)); };
	int ops=r.range(5,50); std::string prog; bool locked=false; int rel=0;
	for (int i=0;i<ops;i++) {
		now+=r.chance(1,2)?0:r.range(1,5000); setNow(); std::string n=r.pick(names); int kind=r.below(20); if (P.size()<2&&r.chance(1,2)) kind=0; prog+=fmt(" %d%s",kind,locked?"L":"");
		bool indexed=r.chance(1,4); unsigned ix=idx(); std::string full=indexed?n+fmt(".%u",ix):n; note(fmt("report op %d ",kind)+quote(full)); if (kind>=4&&kind<15&&!M.count(full)&&M.size()) { full=std::next(M.begin(),r.below(M.size()))->first; indexed=false; }
		if (!locked&&r.chance(1,15)) { if (rawExec(S.raw,"BEGIN IMMEDIATE")) { locked=true; c.count("locked_phases"); rel=r.chance(1,2)?0:r.range(1,12); gBlocker=S.raw; gBusySeen=0; gReleaseAt=rel; } }
		if (kind<3) { if (indexed) { unsigned hi=ix>4294967293u?UINT_MAX:ix+r.below(3); bool ok=t->create(n.c_str(),ix,hi); if (rel&&gBusySeen>=rel) locked=false; for (unsigned j=ix;;j++) { std::string x=n+fmt(".%u",j); bool have=locked&&!ok?false:true; if (!ok&&!locked) { RTab g=readReports(S.raw); have=g.count(x); } if (have&&!M.count(x)) { if (ok||readReports(S.raw).count(x)) { M[x].clr=now; P[x]; } } if (j==hi) break; } if (!ok&&!S.raw) {} if (ok==false&&!rel&&!locked) c.fail("report:create","creation failed on a free database"); }
			else { bool ok=t->create(full.c_str()); if (rel&&gBusySeen>=rel) locked=false; if (ok&&!M.count(full)) { M[full].clr=now; P[full]; } else if (!ok&&!locked&&!rel) c.fail("report:create","creation failed on a free database"); } diff("create","report:create-effect"); }
		else if (kind<9) { if (!M.count(full)) continue; int times=r.chance(1,100)?r.range(30000,140000):r.chance(1,4)?r.chance(1,6)?r.range(95,300):r.range(2,30):1; for (int j=0;j<times;j++) { size_t p=full.rfind('.'); if (indexed&&p!=std::string::npos&&full==n+fmt(".%u",ix)) t->incr(n.c_str(),ix); else t->incr(full.c_str()); } P[full]+=times; c.count("increments",times); diff("incr","report:incr-early"); }
		else if (kind<11) { if (!M.count(full)) continue; unsigned v=r.chance(1,6)?(unsigned)r.next():r.below(60); bool ok=indexed&&full==n+fmt(".%u",ix)?t->max(n.c_str(),ix,v):t->max(full.c_str(),v); if (rel&&gBusySeen>=rel) locked=false; if (ok) { if (v>M[full].value) M[full].value=v; M[full].upd=now; } else if (!locked&&!rel) c.fail("report:max","max failed on a free database"); diff("max","report:max-effect"); c.count("max_ops"); }
		else if (kind<13) { if (!M.count(full)) continue; bool ok=indexed&&full==n+fmt(".%u",ix)?t->clear(n.c_str(),ix):t->clear(full.c_str()); if (rel&&gBusySeen>=rel) locked=false; if (ok) { M[full].value=0; M[full].upd=0; M[full].clr=now; P[full]=0; } else if (!locked&&!rel) c.fail("report:clear","clear failed on a free database"); diff("clear of one","report:clear-effect"); c.count("clears"); }
		else if (kind<14) { bool ok=t->clear(); if (rel&&gBusySeen>=rel) locked=false; if (ok) { for (auto &p:M) { p.second.value=0; p.second.upd=0; p.second.clr=now; P[p.first]=0; } } else if (!locked&&!rel) c.fail("report:clear","clear failed on a free database"); diff("clear of all","report:clear-effect"); }
		else if (kind<18) { bool wasLocked=locked; t->commit(); if (rel&&gBusySeen>=rel) locked=false; RTab g=readReports(S.raw); for (auto &p:P) { if (!p.second) continue; RRow full2=M[p.first]; full2.value+=p.second; full2.upd=now; if (wasLocked&&g[p.first]==M[p.first]) { c.count("commits_deferred"); continue; } M[p.first]=full2; p.second=0; } if (!diff("commit",wasLocked?"report:commit-locked":"report:commit")) c.count("commits"); }
		else if (kind==18&&locked) { gReleaseAt=0; gBlocker=NULL; rawExec(S.raw,"ROLLBACK"); locked=false; rel=0; }
		else if (kind==19&&!locked&&S.t.size()<4) { t->commit(); for (auto &p:P) if (p.second) { M[p.first].value+=p.second; M[p.first].upd=now; p.second=0; } t=S.open(); c.count("reopens"); diff("reopening","report:reopen"); }
		if (!locked&&rel) { rel=0; gReleaseAt=0; gBlocker=NULL; }
	}
	if (locked) { gReleaseAt=0; gBlocker=NULL; rawExec(S.raw,"ROLLBACK"); }
	t->commit(); for (auto &p:P) if (p.second) { M[p.first].value+=p.second; M[p.first].upd=now; p.second=0; } diff("the final commit","report:final"); t->commit(); now+=100; setNow(); t->commit(); diff("a commit of nothing","report:recommit");
	c.cover(prog); if (c.caseNo<1) c.sample("ops:"+prog+" -> "+show(M)); vclockOff();
}

SCENARIO(report_conc)
{
	RScope S(c); Rng &r=c.rng; ReportingTable *t=S.open(); int nc=r.range(1,4), nt=r.range(2,5), per=r.range(20,200); std::vector<std::string> names; bool ixd=r.chance(1,2); if (ixd) t->create("counter",0,nc-1); for (int i=0;i<nc;i++) { names.push_back(fmt(ixd?"counter.%d":"counter%d",i)); if (!ixd) t->create(names[i].c_str()); } t->create("top"); t->create("cl"); 
	std::vector<std::atomic<unsigned>> begun(nc), ended(nc), lastMax(1); for (auto &x:begun) x=0; for (auto &x:ended) x=0; lastMax[0]=0; std::atomic<unsigned> clBegun(0), clEnded(0); std::atomic<unsigned> clearedAtLeast(0), clearedAtMost(0); std::atomic<bool> stop(false); bool clears=r.chance(1,2);
	perturbOn(r.next(),r.below(4)); std::vector<Worker> w(nt+3); std::vector<Worker*> ws; uint64_t salt=r.next();
	for (int k=0;k<nt;k++) { ws.push_back(&w[k]); w[k].start([&,k]{ perturbThread(k); Rng q(salt+k); for (int i=0;i<per;i++) { int x=q.below(nc); begun[x]++; if (ixd&&q.chance(3,4)) t->incr("counter",x); else t->incr(names[x].c_str()); ended[x]++; if (q.chance(1,4)) { clBegun++; t->incr("cl"); clEnded++; } if (q.chance(1,60)) { unsigned v=q.below(100000); unsigned o=lastMax[0]; while (v>o&&!lastMax[0].compare_exchange_weak(o,v)); for (int a=0;a<50&&!t->max("top",v);a++) usleep(300); } } }); }
	// commits from two threads at once, each bracketed by what had been reported
	std::string bad; for (int k=0;k<2;k++) { ws.push_back(&w[nt+k]); w[nt+k].start([&,k]{ perturbThread(nt+k); Rng q(salt+100+k); while (!stop) { t->commit(); usleep(q.below(400)); } }); }
	unsigned lo=0, hi=0; if (clears) { ws.push_back(&w[nt+2]); w[nt+2].start([&]{ perturbThread(nt+2); Rng q(salt+200); int n=q.range(1,3); for (int i=0;i<n;i++) { usleep(q.below(3000)); unsigned a=clEnded; bool ok=t->clear("cl"); unsigned b=clBegun; if (ok) { lo=a; hi=b; } } }); }
	int reads=0; for (int i=0;i<400;i++) { bool all=true; for (int k=0;k<nt;k++) if (!w[k].done) all=false; if (all) break; RTab g=readReports(S.raw); for (int x=0;x<nc;x++) if (g[names[x]].value>begun[x]) { c.fail("report:excess",fmt("%s reads %llu after only %u increments",names[x].c_str(),g[names[x]].value,(unsigned)begun[x])); } reads++; usleep(200); }
	for (int k=0;k<nt;k++) w[k].join(); if (clears) w[nt+2].join(); stop=true; for (int k=0;k<2;k++) w[nt+k].join(); perturbOff();
	t->commit(); t->commit(); RTab g=readReports(S.raw); for (int x=0;x<nc;x++) if (g[names[x]].value!=begun[x]) c.fail(g[names[x]].value<begun[x]?"report:lost":"report:twice",fmt("%s holds %llu after %u increments from %d threads",names[x].c_str(),g[names[x]].value,(unsigned)begun[x],nt));
	if (g["top"].value!=lastMax[0]) c.fail("report:max-conc",fmt("maximum holds %llu, largest reported %u",g["top"].value,(unsigned)lastMax[0]));
	unsigned long long mx=clBegun-lo, mn=clBegun-hi; if (!clears) { mx=mn=clBegun; } if (g["cl"].value>mx||g["cl"].value<mn) c.fail("report:clear-conc",fmt("after a clear the counter holds %llu, expected %llu to %llu",g["cl"].value,mn,mx));
	c.count("increments",nt*per); c.count("concurrent_reads",reads); c.coverHash(perturbSignature()); c.cover(fmt("%d %d %d",nc,nt,per));
}

// a commit under way while counters are cleared or incremented, or the database is held by somebody else; many counters, large indexes
SCENARIO(report_overlap)
{
	RScope S(c); Rng &r=c.rng; ReportingTable *t=S.open(); int nc=r.chance(1,6)?r.range(50,130):r.range(1,20); std::vector<std::string> names; std::map<std::string,unsigned long long> want; std::string d;
	if (r.chance(1,25)) { unsigned lo=r.below(2000), n=r.range(990,1300); if (!t->create("range",lo,lo+n-1)) c.fail("report:create","creation of a range failed"); for (unsigned i=0;i<n;i++) want[fmt("range.%u",lo+i)]=0; for (int i=0;i<30;i++) { unsigned x=r.chance(1,3)?lo+n-1:lo+r.below(n); t->incr("range",x); want[fmt("range.%u",x)]++; } }
	for (int i=0;i<nc;i++) { names.push_back(fmt("c%d",i)); if (!t->create(names[i].c_str())) c.fail("report:create","creation failed"); want[names[i]]=0; } perturbOn(r.next(),r.below(4)); int rounds=r.range(1,4);
	for (int k=0;k<rounds;k++) { int mode=r.below(3); for (auto &n:names) { int m=r.chance(1,12)?r.range(90,400):r.below(4); for (int i=0;i<m;i++) t->incr(n.c_str()); want[n]+=m; }
		bool locked=false; int rel=0; if (mode==1 && rawExec(S.raw,"BEGIN IMMEDIATE")) { locked=true; rel=r.chance(1,2)?0:r.range(1,20); gBlocker=S.raw; gBusySeen=0; gReleaseAt=rel; }
		int nw=r.range(1,2); std::vector<Worker> w(nw); std::vector<Worker*> ws; std::atomic<int> up(0); for (int i=0;i<nw;i++) { ws.push_back(&w[i]); w[i].start([&,i,k]{ perturbThread(10*k+i); up++; t->commit(); }); } waitFor([&]{ return up>=nw; },10); if (r.chance(1,2)) usleep(r.below(r.chance(1,2)?300:4000));
		if (mode==0) { int q=r.chance(1,2)?1:r.range(1,3); for (int j=0;j<q;j++) { if (r.chance(1,2)) { if (t->clear()) for (auto &x:want) x.second=0; else c.fail("report:clear","clear failed on a free database"); } else { std::string n=r.pick(names); if (t->clear(n.c_str())) want[n]=0; else c.fail("report:clear","clear failed on a free database"); } } c.count("clears_in_commit",q); }
		else { int m=r.range(1,300); for (int i=0;i<m;i++) { std::string n=r.pick(names); t->incr(n.c_str()); want[n]++; if (r.chance(1,20)) sched_yield(); } c.count("increments_in_commit",m); }
		for (auto x:ws) x->join(); if (locked) { gReleaseAt=0; gBlocker=NULL; if (!rel||gBusySeen<rel) { rawExec(S.raw,"ROLLBACK"); c.count("failed_commits"); } }
		d+=fmt("%d%s",mode,locked?rel?"r":"l":""); t->commit(); RTab g=readReports(S.raw); for (auto &x:want) if (!g.count(x.first)||g[x.first].value!=x.second) { c.fail(g[x.first].value<x.second?"report:overlap-lost":"report:overlap-extra",fmt("%s of %d holds %llu expected %llu after rounds %s",x.first.c_str(),(int)want.size(),g[x.first].value,x.second,d.c_str())); perturbOff(); return; } if (g.size()!=want.size()) { c.fail("report:overlap-rows",fmt("%d parameters stored, %d created",(int)g.size(),(int)want.size())); break; } }
	perturbOff(); c.coverHash(perturbSignature()); c.cover(d+fmt(" %d",nc));
}
// the background thread commits by itself, and ends when told
SCENARIO(report_periodic)
{
	limits(); Rng &r=c.rng; static sqlite3 *raw; static bool first=true; static unsigned long long total; if (first) { raw=rawOpen(gReportsPath); gReports.create("bg"); }
	Worker w; int base=0; if (!first) { gReports.mReportRunning=true; w.start([&]{ reportingBatchCommitter(NULL); }); } (void)base;
	if (!waitFor([&]{ return sleepers()==1; },10)) { c.count("no_periodic_sleep"); return; }
	int rounds=r.range(1,4); for (int i=0;i<rounds;i++) { int n=r.range(0,50); for (int j=0;j<n;j++) gReports.incr("bg"); total+=n; int before=slept(); tick(); if (!waitFor([&]{ return slept()>before&&readReports(raw)["bg"].value==total; },10)) { c.fail("report:periodic",fmt("after a period the counter holds %llu of %llu",readReports(raw)["bg"].value,total)); break; } c.count("periods"); }
	int n=r.range(0,9); for (int j=0;j<n;j++) gReports.incr("bg"); total+=n; int slept=gSleptTotal; gReports.reportShutdown(); tick(); if (!waitFor([&]{ return sleepers()==0; },10)) c.fail("report:shutdown","committer did not wake"); usleep(3000); if (gSleptTotal!=slept) c.fail("report:shutdown","committer went on after the shutdown"); if (!first) w.join(); gReports.commit(); if (readReports(raw)["bg"].value!=total) c.fail("report:shutdown-total","increments before the shutdown lost"); first=false; c.cover(fmt("%d %d",rounds,n));
}
