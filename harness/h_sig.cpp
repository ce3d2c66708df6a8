// Signal vectors and single-instance registration, in forked children; pid files redirected into the scratch directory.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <algorithm>
#include "Configuration.h"
#include "Logger.h"
#include "UnixSignal.h"
#include "SelfDetect.h"
#include "Exit.h"
using namespace rt;
ConfigurationTable gConfig;
UnixSignal gSigVec;
SelfDetect gSelf;

struct Rec { int what, id, sig; };	// what 1: handler, 2: core dump, 3: shell command
struct Shm { volatile int n; Rec r[256]; char text[8][600]; volatile int texts; volatile int registered[16]; volatile int go, arrived, released; };
static Shm *gS;
static void put(int what, int id, int sig) { int i=__sync_fetch_and_add(&gS->n,1); if (i<256) gS->r[i]=Rec{what,id,sig}; }
static void putText(int what, const char *t) { int i=__sync_fetch_and_add(&gS->texts,1); if (i<8) { strncpy(gS->text[i],t,599); gS->text[i][599]=0; } put(what,i,0); }
extern "C" int WriteCoreDump(const char *f) { putText(2,f); return 0; }
extern "C" int system(const char *cmd) { putText(3,cmd); return 0; }	// never run

// ---- /var/run stays untouched: everything below it lands in the scratch directory
static std::string gRunDir; static unsigned gWiden;
static const char *redir(const char *p, std::string &b) { if (p && !strncmp(p,"/var/run",8) && (p[8]=='/'||!p[8])) { b=gRunDir+(p+8); return b.c_str(); } if (p && !strncmp(p,"/run/",5)) { b=gRunDir+(p+4); return b.c_str(); } return p; }
static void widen() { if (gWiden) usleep(gWiden); }
template<class F> static F realFn(const char *n) { return (F)dlsym(RTLD_NEXT,n); }
extern "C" int open(const char *p, int fl, ...) { va_list ap; va_start(ap,fl); mode_t m=(fl&(O_CREAT|O_TMPFILE))?va_arg(ap,mode_t):0; va_end(ap); std::string b; return syscall(SYS_openat,AT_FDCWD,redir(p,b),fl,m); }
extern "C" int open64(const char *p, int fl, ...) { va_list ap; va_start(ap,fl); mode_t m=(fl&(O_CREAT|O_TMPFILE))?va_arg(ap,mode_t):0; va_end(ap); std::string b; return syscall(SYS_openat,AT_FDCWD,redir(p,b),fl|O_LARGEFILE,m); }
extern "C" FILE *fopen(const char *p, const char *m) { typedef FILE *(*fn)(const char*,const char*); static fn real=realFn<fn>("fopen"); std::string b; return real(redir(p,b),m); }
extern "C" FILE *fopen64(const char *p, const char *m) { typedef FILE *(*fn)(const char*,const char*); static fn real=realFn<fn>("fopen64"); std::string b; return real(redir(p,b),m); }
extern "C" int stat(const char *__restrict p, struct stat *__restrict s) __THROW { std::string b; int r=syscall(SYS_newfstatat,AT_FDCWD,redir(p,b),s,0); if (b.size()) widen(); return r; }
extern "C" int lstat(const char *__restrict p, struct stat *__restrict s) __THROW { std::string b; int r=syscall(SYS_newfstatat,AT_FDCWD,redir(p,b),s,AT_SYMLINK_NOFOLLOW); if (b.size()) widen(); return r; }
extern "C" int access(const char *p, int m) __THROW { std::string b; int r=syscall(SYS_access,redir(p,b),m); if (b.size()) widen(); return r; }
extern "C" int unlink(const char *p) __THROW { std::string b; return syscall(SYS_unlink,redir(p,b)); }
extern "C" int remove(const char *p) __THROW { std::string b; return syscall(SYS_unlink,redir(p,b)); }
extern "C" int rename(const char *p, const char *q) __THROW { std::string b,d; return syscall(SYS_rename,redir(p,b),redir(q,d)); }
extern "C" int link(const char *p, const char *q) __THROW { std::string b,d; return syscall(SYS_link,redir(p,b),redir(q,d)); }

static void prep() { syslogCapture(true); if (!gS) gS=(Shm*)mmap(NULL,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)gS,0,sizeof *gS); struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); }
static bool exists(const std::string &f) { struct stat st; return syscall(SYS_newfstatat,AT_FDCWD,f.c_str(),&st,0)==0; }
static std::string slurp(const std::string &f) { int fd=open(f.c_str(),O_RDONLY); if (fd<0) return "(none)"; char b[256]; int n=read(fd,b,sizeof b); close(fd); return std::string(b,n<0?0:n); }
static void spit(const std::string &f, const std::string &s) { int fd=open(f.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); if (fd>=0) { ssize_t x=write(fd,s.data(),s.size()); (void)x; close(fd); } }
// the child's end: 'E' exit code, 'S' signal, 'T' stopped, '?' no end within the limit (killed)
struct End { char k; int v; bool operator==(const End &o) const { return k==o.k&&v==o.v; } };
static End waitChild(pid_t p) { for (int i=0;i<20000;i++) { int st; pid_t q=waitpid(p,&st,WNOHANG|WUNTRACED); if (q==p) { if (WIFEXITED(st)) return End{'E',WEXITSTATUS(st)}; if (WIFSIGNALED(st)) return End{'S',WTERMSIG(st)}; if (WIFSTOPPED(st)) { int sg=WSTOPSIG(st); kill(p,SIGKILL); kill(p,SIGCONT); waitpid(p,&st,0); return End{'T',sg}; } } usleep(500); } kill(p,SIGKILL); int st; waitpid(p,&st,0); return End{'?',0}; }
static bool isCore(int s) { static const int k[]={SIGQUIT,SIGILL,SIGABRT,SIGFPE,SIGSEGV,SIGBUS,SIGSYS,SIGTRAP,SIGXCPU,SIGXFSZ}; for (int x:k) if (x==s) return true; return false; }
static bool isIgnored(int s) { return s==SIGCHLD||s==SIGURG||s==SIGWINCH||s==SIGCONT; }
static bool isStop(int s) { return s==SIGTSTP||s==SIGTTIN||s==SIGTTOU; }
static bool usable(int s) { return s>=1&&s<64&&s!=SIGKILL&&s!=SIGSTOP&&s!=32&&s!=33&&!isStop(s); }	// stopping depends on the process group
static void defaults() { for (int i=1;i<64;i++) if (i!=SIGKILL&&i!=SIGSTOP) signal(i,SIG_DFL); }
static int anySig(Rng &r) { static const int common[]={SIGINT,SIGTERM,SIGHUP,SIGUSR1,SIGSEGV,SIGABRT,SIGQUIT,SIGPIPE,SIGBUS,SIGFPE}; for (;;) { int s=r.chance(1,2)?common[r.below(10)]:r.range(1,63); if (usable(s)) return s; } }

static int gNestSig, gNestId=-1; static bool gAgain;
template<int N> static void handler(int s) { put(1,N,s); if (N==gNestId&&gNestSig) { int x=gNestSig; gNestSig=0; kill(getpid(),x); } if (gAgain) kill(getpid(),s); }
static const sighandler_t H[]={handler<0>,handler<1>,handler<2>,handler<3>,handler<4>,handler<5>};

SCENARIO(sig_vector)
{
	prep(); Rng &r=c.rng; std::map<int,std::vector<int>> reg; std::vector<std::pair<int,int>> order; int nsig=r.range(1,5); std::vector<int> sigs; for (int i=0;i<nsig;i++) sigs.push_back(anySig(r)); int n=r.chance(1,12)?r.range(20,120):r.range(0,12); for (int i=0;i<n;i++) { int s=r.chance(1,10)?(r.chance(1,2)?r.range(-3,0):r.range(64,200)):sigs[r.below(nsig)], h=r.below(6); order.push_back({s,h}); if (s>0&&s<64) reg[s].push_back(h); }
	bool named=r.chance(1,2), pid=r.chance(1,2), tarred=r.chance(1,2), save=r.chance(1,2); std::string core=r.chance(1,4)?"/tmp/c o%d%s":"core.file"+std::string(r.below(40),'z'), tar="/tmp/saved-"+fmt("%d",(int)r.below(99))+".tgz";
	int s=r.chance(1,5)?anySig(r):sigs[r.below(nsig)]; int nest=0, nestId=-1; bool again=r.chance(1,8); if (!again&&r.chance(1,8)&&reg.count(s)) { nest=sigs[r.below(nsig)]; if (nest==s||!reg.count(nest)||isIgnored(nest)||isStop(nest)||isIgnored(s)||isStop(s)) nest=0; else nestId=reg[s][r.below(reg[s].size())]; }
	bool late=r.chance(1,3); note(fmt("signal %d nest %d",s,nest)); fflush(NULL); pid_t p=fork();
	if (p==0) { defaults(); gNestSig=nest; gNestId=nestId; gAgain=again; int coreFirst=r.below(2); auto names=[&]{ if (named) gSigVec.CoreName(core,pid); if (tarred) gSigVec.TarName(tar,save); }; if (coreFirst) names(); for (auto &o:order) gSigVec.Register(H[o.second],o.first); if (!coreFirst) names(); if (late) usleep(100); kill(getpid(),s); for (int i=0;i<3;i++) usleep(100); _exit(42); }
	End e=waitChild(p); std::string who=fmt("signal %d, %zu handlers%s: ",s,reg[s].size(),again?", sent again by each":"");
	// expected record
	std::vector<Rec> want; int dieBy=s; std::function<void(int,bool)> deliver=[&](int sg, bool top){ if (!reg.count(sg)||reg[sg].empty()) return; if (isCore(sg)) { want.push_back(Rec{2,0,0}); if (tarred&&save) want.push_back(Rec{3,0,0}); } for (int h:reg[sg]) { want.push_back(Rec{1,h,sg}); if (top&&nest&&h==nestId) { dieBy=nest; deliver(nest,false); return; } } };
	deliver(s,true); bool handled=reg.count(s)&&reg[s].size(); End we=isIgnored(dieBy)?End{'E',42}:isStop(dieBy)?End{'T',dieBy}:End{'S',dieBy};
	if (!(e==we)) c.fail(e.k=='?'?"sig:stuck":handled?"sig:after":"sig:default",who+fmt("process ended by %c%d, expected %c%d",e.k,e.v,we.k,we.v));
	std::string g,w; std::vector<int> texts; for (int i=0;i<gS->n&&i<256;i++) g+=gS->r[i].what==1?fmt("h%d(%d) ",gS->r[i].id,gS->r[i].sig):gS->r[i].what==2?"core ":"save "; for (auto &x:want) w+=x.what==1?fmt("h%d(%d) ",x.id,x.sig):x.what==2?"core ":"save ";
	if (g!=w) c.fail("sig:handlers",who+"called: "+g+" expected: "+w);
	for (int i=0;i<gS->n&&i<256;i++) { Rec &x=gS->r[i]; if (x.what==2&&x.id<8) { std::string f=(named?core:"core")+((named&&pid)?fmt(".%d",(int)p):""); if (f!=gS->text[x.id]) c.fail("sig:core-name",who+"core written to "+quote(gS->text[x.id])+" expected "+quote(f)); c.count("core_dumps"); } if (x.what==3&&x.id<8) { if (!strstr(gS->text[x.id],fmt("%d",(int)p).c_str())) c.fail("sig:save","files saved for another process"); c.count("saves"); } if (x.what==1) c.count("handler_calls"); }
	c.cover(fmt("%d %c%d ",s,e.k,e.v)+w); if (c.caseNo<3) c.sample(who+w+fmt("-> %c%d",e.k,e.v));
}
// several deliveries to one process, with registrations in between: each runs all handlers registered so far, the first one that ends programs ends this one
SCENARIO(sig_repeat)
{
	prep(); Rng &r=c.rng; static const int ign[]={SIGCHLD,SIGURG,SIGWINCH,SIGCONT}; std::map<int,std::vector<int>> reg; int ns=r.range(1,3); std::vector<int> sigs; for (int i=0;i<ns;i++) sigs.push_back(r.chance(2,3)?ign[r.below(4)]:anySig(r));
	// what a survived signal does when it comes again with no registration since is left open: none is sent then
	struct Step { int kind, s, h; }; std::vector<Step> steps; int n=r.range(2,20); std::set<int> survived; for (int i=0;i<n;i++) { Step x{(int)r.below(2),sigs[r.below(ns)],(int)r.below(6)}; if (x.kind) { if (survived.count(x.s)) x.kind=0; else survived.insert(x.s); } if (!x.kind) survived.erase(x.s); steps.push_back(x); } fflush(NULL); pid_t p=fork();
	if (p==0) { defaults(); for (auto &x:steps) { if (x.kind) kill(getpid(),x.s); else gSigVec.Register(H[x.h],x.s); } _exit(42); }
	End e=waitChild(p), we=End{'E',42}; std::string g,w; int delivered=0; for (auto &x:steps) { if (!x.kind) { reg[x.s].push_back(x.h); continue; } delivered++; if (isCore(x.s)&&reg[x.s].size()) w+="core "; for (int h:reg[x.s]) w+=fmt("h%d(%d) ",h,x.s); if (!isIgnored(x.s)) { we=End{'S',x.s}; break; } }
	for (int i=0;i<gS->n&&i<256;i++) g+=gS->r[i].what==1?fmt("h%d(%d) ",gS->r[i].id,gS->r[i].sig):gS->r[i].what==2?"core ":"save ";
	if (!(e==we)) c.fail(e.k=='?'?"sig:stuck":"sig:repeat-end",fmt("process ended by %c%d, expected %c%d",e.k,e.v,we.k,we.v)); if (g!=w) c.fail("sig:repeat",fmt("%d deliveries; called: ",delivered)+g+" expected: "+w); c.count("deliveries",delivered); c.cover(w+fmt("%c%d",we.k,we.v));
}
// an object whose configuration was never set asks for nothing to be saved, whatever its memory held before
SCENARIO(sig_fresh)
{
	prep(); Rng &r=c.rng; static const int cs[]={SIGQUIT,SIGILL,SIGABRT,SIGFPE,SIGSEGV,SIGBUS,SIGSYS,SIGTRAP,SIGXCPU,SIGXFSZ}; int s=cs[r.below(10)], fill=r.chance(1,2)?1:0xff; fflush(NULL); pid_t p=fork();
	if (p==0) { void *m=malloc(sizeof(UnixSignal)); memset(m,fill,sizeof(UnixSignal)); UnixSignal *u=new (m) UnixSignal; u->Handler(s); _exit(7); }
	End e=waitChild(p); int cores=0,saves=0; for (int i=0;i<gS->n&&i<256;i++) { if (gS->r[i].what==2) cores++; if (gS->r[i].what==3) saves++; } if (saves) c.fail("sig:fresh-save","files saved although nobody asked for it"); if (cores!=1||strcmp(gS->text[0],"core")) c.fail("sig:fresh-core",fmt("%d cores, named %s",cores,gS->text[0])); if (!(e==End{'E',7})) c.fail("sig:fresh-end",fmt("ended by %c%d",e.k,e.v)); c.cover(fmt("%d %d",s,fill));
}

static std::string gDir;
static void selfPrep(Ctx &c) { prep(); gDir=tmpDir()+fmt("/self%llu",(unsigned long long)c.caseNo); mkdir(gDir.c_str(),0777); gRunDir=gDir+"/run"; mkdir(gRunDir.c_str(),0777); gConfig.set("Core.File",gDir+"/core"); gConfig.set("Core.Pid","1"); gConfig.set("Core.TarFile",gDir+"/t.tgz"); gConfig.set("Core.SaveFiles","0"); }
static void gateWait(int gate) { for (int i=0;i<100000&&gS->go<gate;i++) usleep(100); }

SCENARIO(self_life)
{
	selfPrep(c); Rng &r=c.rng; static const char *progs[]={"/OpenBTS/OpenBTS","./OpenBTS","OpenBTS","/usr/local/bin/some.other-prog_1"}; std::string argv0=progs[r.below(4)]; if (r.chance(1,10)) for (int i=r.range(10,180);i>0;i--) argv0+="abcdefghijklmnopqrstuvwxyzABCXYZ0189._-"[r.below(38)]; size_t sl=argv0.rfind('/'); std::string base=sl==std::string::npos?argv0:argv0.substr(sl+1), pidFile=gRunDir+"/"+base+".pid", otherPid=gRunDir+"/other.pid"; spit(otherPid,"1\n"); spit(gDir+"/keep","x");
	bool pre=r.chance(1,6), noDir=!pre&&r.chance(1,12); if (pre) spit(pidFile,"12345\n"); std::string realRun=gRunDir; if (noDir) gRunDir=gDir+"/missing";
	std::vector<std::string> files; int nf=r.chance(1,12)?r.range(10,80):r.below(4); for (int i=0;i<nf;i++) { files.push_back(gDir+fmt("/file%d",i)); if (r.chance(3,4)) spit(files[i],"y"); } if (nf&&r.chance(1,6)) files.insert(files.begin()+1+r.below(files.size()),files[0]); std::vector<bool> had; for (auto &f:files) had.push_back(exists(f));
	int mode=r.below(5), s=anySig(r), code=r.below(256); if (mode>=3) mode=1; bool lateFiles=r.chance(1,2), noStdin=r.chance(1,6); if (mode==1&&r.chance(1,6)) { static const int ig[]={SIGCHLD,SIGURG,SIGWINCH,SIGCONT}; s=ig[r.below(4)]; } int s2=0, reps=1; if (mode==1&&isIgnored(s)) { if (r.chance(1,2)) do s2=anySig(r); while (isIgnored(s2)); reps=r.range(1,3); } note(fmt("self mode %d sig %d",mode,s)); fflush(NULL); pid_t p=fork();
	if (p==0) { defaults(); if (noStdin) close(0); if (!lateFiles) for (auto &f:files) gSelf.RegisterFile(f.c_str()); gSelf.RegisterProgram(argv0.c_str()); gS->registered[0]=1; if (lateFiles) for (auto &f:files) gSelf.RegisterFile(f.c_str()); gS->arrived=1; gateWait(1); if (mode==0) exit(code); if (mode==1) { for (int i=0;i<reps;i++) { kill(getpid(),s); usleep(300); } gS->arrived=2; gateWait(2); if (s2) { kill(getpid(),s2); usleep(300); } exit(code); } _exit(code); }
	auto gone=[&](const char *when){ if (exists(pidFile)) c.fail("self:left",std::string("pid file left behind ")+when); for (auto &f:files) if (exists(f)) c.fail("self:file-left",std::string("registered file left behind ")+when); };
	auto kept=[&](const char *when){ if (!exists(gDir+"/keep")||slurp(otherPid)!="1\n") c.fail("self:others",std::string("a file which was not registered changed ")+when); };
	if (pre||noDir) { End e=waitChild(p); int wantC=pre?Exit::DETECTFILE:Exit::CREATEFILE; if (!(e==End{'E',wantC})||gS->registered[0]) c.fail(pre?"self:second":"self:nodir",fmt("program ended by %c%d, registered %d, expected exit %d",e.k,e.v,gS->registered[0],wantC)); if (pre&&slurp(pidFile)!="12345\n") c.fail("self:clobber","the pid file of the running instance was changed: "+quote(slurp(pidFile))); kept("by a refused start"); c.count("refused"); }
	else {
		bool up=waitFor([&]{ return gS->arrived>=1; },10); if (!up) { kill(p,SIGKILL); End e=waitChild(p); c.fail("self:start",fmt("program did not start: %c%d",e.k,e.v)); }
		else {
			if (slurp(pidFile)!=fmt("%d\n",(int)p)) c.fail("self:pid","pid file holds "+quote(slurp(pidFile))+fmt(" expected %d",(int)p));
			if (r.chance(1,2)) { fflush(NULL); pid_t q=fork(); if (q==0) { std::string f2=gDir+"/keep"; gSelf.RegisterProgram(argv0.c_str()); gS->registered[1]=1; _exit(99); } End e2=waitChild(q); if (!(e2==End{'E',Exit::DETECTFILE})||gS->registered[1]) c.fail("self:second",fmt("second instance ended by %c%d",e2.k,e2.v)); if (slurp(pidFile)!=fmt("%d\n",(int)p)) c.fail("self:clobber","refused second instance changed the pid file"); c.count("second_instances"); }
			bool survives=mode==1&&(isIgnored(s)); gS->go=1; if (survives) { if (!waitFor([&]{ return gS->arrived>=2; },10)) { End e=waitChild(p); c.fail("self:killed",fmt("signal %d, which the program ignores, ended it: %c%d",s,e.k,e.v)); } else { if (slurp(pidFile)!=fmt("%d\n",(int)p)) c.fail("self:gone-alive",fmt("signal %d, which does not end the program, removed its pid file",s)); for (size_t i=0;i<files.size();i++) if (had[i]&&!exists(files[i])) c.fail("self:file-gone-alive",fmt("signal %d, which does not end the program, removed a registered file",s)); gS->go=2; End e=waitChild(p), we2=s2?End{'S',s2}:End{'E',code}; if (!(e==we2)) c.fail("self:end",fmt("ended by %c%d, expected %c%d after %d survived signals",e.k,e.v,we2.k,we2.v,reps)); gone(s2?fmt("after signal %d",s2).c_str():"after exit"); c.count("survived_signals"); } kept("while running"); }
			else { End e=waitChild(p); bool stop=mode==1&&isStop(s); End we=mode==1?(stop?End{'T',s}:End{'S',s}):End{'E',code}; if (!(e==we)) c.fail("self:end",fmt("ended by %c%d, expected %c%d",e.k,e.v,we.k,we.v)); if (stop) { if (slurp(pidFile)!=fmt("%d\n",(int)p)) c.fail("self:gone-alive",fmt("stop signal %d removed the pid file",s)); } else if (mode==2) { if (slurp(pidFile)!=fmt("%d\n",(int)p)) c.fail("self:abrupt","pid file of a program which ended abruptly has gone"); } else gone(mode==0?"after exit":fmt("after signal %d",s).c_str()); kept("at the end"); c.count(mode==0?"exits":mode==1?"signals":"abrupt_ends"); }
		}
	}
	c.cover(fmt("%d %d %d %d %d ",mode,mode==1?s:0,pre,noDir,nf)+argv0); gRunDir=realRun; int x=0; (void)x; std::string rm=gDir; for (auto &f:files) syscall(SYS_unlink,f.c_str()); syscall(SYS_unlink,pidFile.c_str()); syscall(SYS_unlink,otherPid.c_str()); syscall(SYS_unlink,(gDir+"/keep").c_str()); rmdir(gRunDir.c_str()); rmdir(gDir.c_str());
}
// files registered without a program go when the program's own end asks for it
SCENARIO(self_files)
{
	selfPrep(c); Rng &r=c.rng; int n=r.chance(1,8)?r.range(10,150):r.range(1,5); spit(gDir+"/keep","x"); std::vector<std::string> files; for (int i=0;i<n;i++) { files.push_back(gDir+fmt("/f%d",i)); if (r.chance(4,5)) spit(files[i],"y"); } std::vector<std::string> reg=files; if (r.chance(1,2)) reg.insert(reg.begin()+r.below(n+1),files[r.below(n)]); int how=r.below(2), code=r.below(256); fflush(NULL); pid_t p=fork();
	if (p==0) { defaults(); for (auto &f:reg) gSelf.RegisterFile(f.c_str()); gSelf.Exit(how?-999:SIGTERM); _exit(code); }
	End e=waitChild(p); if (how==0&&e.k=='S'&&e.v==SIGTERM) c.count("ended_by_signal"); else if (!(e==End{'E',code})) c.fail("self:end",fmt("ended by %c%d, expected %d",e.k,e.v,code));
	for (auto &f:files) if (exists(f)) c.fail("self:file-left","registered file left behind by a program which registered only files"); if (!exists(gDir+"/keep")) c.fail("self:others","a file which was not registered changed"); c.cover(fmt("%d %zu %d",n,reg.size(),how)); c.count("file_only_programs");
	for (auto &f:files) syscall(SYS_unlink,f.c_str()); syscall(SYS_unlink,(gDir+"/keep").c_str()); rmdir(gRunDir.c_str()); rmdir(gDir.c_str());
}
SCENARIO(self_race)
{
	selfPrep(c); Rng &r=c.rng; int n=r.range(2,6); std::string pidFile=gRunDir+"/prog.pid"; gWiden=r.chance(2,3)?r.range(100,3000):0; std::vector<pid_t> ps; fflush(NULL); uint64_t salt=r.next();
	for (int i=0;i<n;i++) { pid_t p=fork(); if (p==0) { defaults(); Rng q(salt+i); gateWait(1); for (volatile int z=0;z<(int)q.below(20000);z=z+1); gSelf.RegisterProgram("/usr/bin/prog"); gS->registered[i]=1; __sync_fetch_and_add(&gS->arrived,1); gateWait(2); exit(0); } ps.push_back(p); }
	usleep(2000); gS->go=1; int refused=0; std::vector<bool> done(n,false); waitFor([&]{ refused=0; for (int i=0;i<n;i++) { if (!done[i]) { int st; if (waitpid(ps[i],&st,WNOHANG)==ps[i]) { done[i]=true; if (!(WIFEXITED(st)&&WEXITSTATUS(st)==Exit::DETECTFILE)) c.fail("self:race-end",fmt("an instance ended with status %x",st)); } } if (done[i]) refused++; } return refused+gS->arrived>=n; },15);
	int up=0; pid_t w=0; for (int i=0;i<n;i++) if (gS->registered[i]) { up++; w=ps[i]; } if (up!=1) c.fail("self:race",fmt("%d of %d instances started at the same time are running",up,n)); else if (slurp(pidFile)!=fmt("%d\n",(int)w)) c.fail("self:race-pid","pid file holds "+quote(slurp(pidFile))+fmt(", %d is running",(int)w));
	gS->go=2; for (int i=0;i<n;i++) if (!done[i]) { End e=waitChild(ps[i]); (void)e; } if (exists(pidFile)) c.fail("self:left","pid file left behind after the instance ended"); gWiden=0; c.count("instances",n); c.count("refused",refused); c.cover(fmt("%d %llu",n,(unsigned long long)c.caseNo)); syscall(SYS_unlink,pidFile.c_str()); rmdir(gRunDir.c_str()); rmdir(gDir.c_str());
}
