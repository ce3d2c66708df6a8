// Log levels, groups, alarms and log records.
#include "common.h"
#include "log_emit.h"
#line 5 "h_log.cpp"
#include <fstream>
#include <list>
#include <algorithm>
#include <regex>
#include <fcntl.h>
#include <sys/wait.h>
#include <set>
#include <BitVector.h>
#include <dlfcn.h>
using namespace rt;
ConfigurationTable gConfig;
extern FILE *gLogToFile; extern char gCmdName[20];
void emitSip(int file, int lvl, const std::string &msg); bool watchSip(int lvl); void watchMsgSip(int kind, long n, const std::string &msg);
static std::string gOpenName; static int gOpenFac=-1;
extern "C" void openlog(const char *n, int, int f) { gOpenName=n?n:""; gOpenFac=f; }
static const char *LN[]={"EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG"};
static const char *FN[]={"alpha.cpp","beta.h","a/very/long/path/to/some/source-file_42.cpp"};
static const char *GN[]={"Control","SIP","GSM","GPRS","Layer2","SMS"};
static void emit(int file, int lvl, const std::string &m) { if (file==0) emitAlpha(lvl,m); else if (file==1) emitBeta(lvl,m); else emitGamma(lvl,m); }
static int levelOf(const std::string &s) { for (int i=0;i<8;i++) if (s==LN[i]) return i; if (s=="INFORMATION") return 6; if (s=="WARN") return 4; if (s=="ERROR") return 3; if (s=="CRITICAL") return 2; if (s=="EMERGENCY") return 0; return -1; }
static std::string levelText(Rng &r) { static const char *syn[]={"INFORMATION","WARN","ERROR","CRITICAL","EMERGENCY"}; static const char *bad[]={"debug","LOUD","7"," INFO","NOTICE ","EMER","0","WARNX","WARNIN","INFORMATIONAL","ERRORS","CRITICALLY","EMERGENCIES","DEBUG1","N","notice","ERR "}; switch (r.below(8)) { case 0: case 1: return syn[r.below(5)]; case 2: return bad[r.below(17)]; default: return LN[r.below(8)]; } }
struct CerrCatch { std::ostringstream ss; std::streambuf *old; CerrCatch() { old=std::cerr.rdbuf(ss.rdbuf()); } ~CerrCatch() { std::cerr.rdbuf(old); } };
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch==EOF?0:ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct CerrNull { NullBuf nb; std::streambuf *old; CerrNull() { old=std::cerr.rdbuf(&nb); } ~CerrNull() { std::cerr.rdbuf(old); } };
static void flushLevels() { for (int i=0;i<1100;i++) gGetLoggingLevel("flush-the-cache"); }
static void resetAll() { if (gLogToFile) { fclose(gLogToFile); gLogToFile=NULL; } gLogToConsole=false; gCmdName[0]=0; std::vector<std::string> ks; for (auto &p:gConfig.getAllPairs()) ks.push_back(p.first); for (auto &k:ks) gConfig.remove(k); gLogGroup.setAll(); gLogInit("vt",NULL,LOG_USER); flushLevels(); syslogCapture(true); }
// the level in force for a file: its own setting unless unset or empty, else the general one; unknown names mean the default
struct Model { std::map<std::string,std::string> kv;
	int one(const std::string &k) { int l=levelOf(kv[k]); if (l<0) { l=LOG_NOTICE; kv[k]="NOTICE"; } return l; }
	int file(const char *f) { std::string k=std::string("Log.Level.")+(f?f:""); auto it=kv.find(k); if (it!=kv.end()&&it->second.size()) return one(k); if (!kv.count("Log.Level")) return LOG_NOTICE; return one("Log.Level"); }
	int group(const std::string &k) { auto it=kv.find(k); if (it==kv.end()||it->second.empty()) return 0; return one(k); } };
static std::string recordText(Rng &r, int id) { std::string s=fmt("<%d>",id); int n=r.chance(1,12)?r.range(1000,9000):r.chance(1,3)?0:r.range(0,120); for (int i=0;i<n;i++) s+=r.chance(1,9)?"%sn%d\t\\\"'"[r.below(9)]:(char)r.range(' ',r.chance(1,20)?255:126); return s+"</>"; }
// LEVEL pid:tid time file:line:function: text
static bool wellFormed(const std::string &t, int lvl, const char *file, int line, const char *fn, const std::string &msg)
{
	std::string pre=std::string(LN[lvl])+" "; if (t.compare(0,pre.size(),pre)) return false; std::string suf=std::string(" ")+file+":"+fmt("%d",line)+":"+fn+": "+msg; if (t.size()<suf.size()||t.compare(t.size()-suf.size(),suf.size(),suf)) return false;
	std::string mid=t.substr(pre.size(),t.size()-pre.size()-suf.size()); static const std::regex re("^[0-9]+:[0-9]+ [0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}\\.[0-9]$"); if (!std::regex_match(mid,re)) return false;
	return mid.substr(0,mid.find(' '))==fmt("%d:%d",(int)getpid(),(int)syscall(SYS_gettid));
}
static const char *EF[]={"emitAlpha","emitBeta","emitGamma"};

SCENARIO(log_levels)
{
	Rng &r=c.rng; CerrCatch ce; resetAll(); Model m; int gl[6]={0},wl[6]={0}; int id=0; std::deque<std::string> alarms; { for (auto &s:gGetLoggerAlarms()) alarms.push_back(s); } long maxAlarms=20; std::string trace;
	auto drain=[&](std::vector<SyslogRec> &out) { for (auto &s:syslogTake()) { if (s.prio & ~7) continue; if (s.prio<=LOG_CRIT && s.text.compare(0,strlen(LN[s.prio]),LN[s.prio])==0) { alarms.push_back(s.text); while ((long)alarms.size()>maxAlarms) alarms.pop_front(); } out.push_back(s); } };
	std::vector<SyslogRec> junk; drain(junk);
	int steps=r.range(6,25);
	for (int st=0;st<steps;st++) {
		int op=r.below(9); std::string d;
		if (op<=3) {	// change levels
			int nch=r.range(1,3); for (int i=0;i<nch;i++) { std::string k=r.chance(1,3)?"Log.Level":std::string("Log.Level.")+FN[r.below(3)]; int w=r.below(6); if (w==0) { gConfig.remove(k); m.kv.erase(k); d+=" -"+k; } else { std::string v=w==1&&k!="Log.Level"?"":levelText(r); gConfig.set(k,v); m.kv[k]=v; d+=" "+k+"="+v; } }
			trace+=d+";"; flushLevels();
			// the changed level is in force after at most about a thousand lookups
		} else if (op==4) { // groups
			int nch=r.range(1,4); for (int i=0;i<nch;i++) { std::string k=std::string(r.chance(1,2)?"Log.Group.":"Log.Watch.")+GN[r.below(6)]; int w=r.below(5); if (w==0) { gConfig.remove(k); m.kv.erase(k); d+=" -"+k; } else { std::string v=w==1?"":levelText(r); gConfig.set(k,v); m.kv[k]=v; d+=" "+k+"="+v; } }
			gLogGroup.setAll(); trace+=d+" setAll;"; for (int g=0;g<6;g++) { gl[g]=m.group(std::string("Log.Group.")+GN[g]); wl[g]=m.group(std::string("Log.Watch.")+GN[g]); }
			// a level name not known is repaired in the table
			for (int g=0;g<6;g++) for (int w=0;w<2;w++) { std::string k=std::string(w?"Log.Watch.":"Log.Group.")+GN[g]; if (m.kv.count(k) && m.kv[k].size() && gConfig.getStr(k)!=m.kv[k]) c.fail("log:group-repair",fmt("%s is %s expected %s after:%s",k.c_str(),quote(gConfig.getStr(k)).c_str(),m.kv[k].c_str(),trace.c_str())); }
			flushLevels();
		} else if (op==5) { maxAlarms=r.chance(1,4)?r.range(0,3):r.chance(1,8)?r.range(30,400):r.range(5,20); gConfig.set("Log.Alarms.Max",maxAlarms); trace+=fmt(" max=%ld;",maxAlarms); if (maxAlarms>=30) { flushLevels(); for (int i=r.range(20,(int)maxAlarms+30);i>0;i--) { emit(r.below(3),r.below(3),recordText(r,++id)); if (i%50==0) drain(junk); } drain(junk); }
		} else if (op==6) { std::string lv=LN[r.below(8)], nm=fmt("prog%d",(int)r.below(5)); int fac=r.chance(1,2)?LOG_LOCAL7:LOG_USER; bool with=r.chance(2,3); int how=r.below(3); gOpenName=""; gOpenFac=-1;
			if (how==0) gLogInit(nm.c_str(),with?lv.c_str():NULL,fac); else if (how==1) { Log dummy(nm.c_str(),with?lv.c_str():NULL,fac); } else gLogInitWithFile(nm.c_str(),with?lv.c_str():NULL,fac,NULL);
			if (with) m.kv["Log.Level"]=lv; trace+=" init "+(with?lv:std::string("-"))+";"; if (gOpenName!=nm||gOpenFac!=fac) c.fail("log:init","program name or facility not passed to the system logger"); flushLevels();
		} else { flushLevels(); }
		// levels
		std::vector<SyslogRec> out; 
		for (int f=0;f<4;f++) { const char *fn=f<3?FN[f]:(r.chance(1,2)?NULL:"never/configured.cpp"); int e=m.file(f==3&&!fn?NULL:fn), g; char lb[200]; if (fn&&r.chance(1,2)) { if (r.chance(1,2)) { strcpy(lb,"other/file.cpp"); gGetLoggingLevel(lb); } strcpy(lb,fn); fn=lb; }	/* the name counts, wherever it is kept */ g=gGetLoggingLevel(fn); if (g!=e) c.fail("log:level",fmt("level of %s is %d expected %d after:%s",fn?fn:"(none)",g,e,trace.c_str())); std::string k=std::string("Log.Level.")+(fn?fn:""); }
		for (auto &p:m.kv) if (p.second.size() && p.first.compare(0,9,"Log.Level")==0 && levelOf(p.second)<0) {} 
		drain(out); bool gsnow=true; for (int g=0;g<6;g++) for (int l=0;l<8;l++) { if (gCheckGroupLogLevel((LogGroup::Group)g,l)!=(gl[g]>=l) || gCheckGroupWatchLevel((LogGroup::Group)g,l)!=(wl[g]>=l)) gsnow=false; } if (!gsnow) c.fail("log:group",fmt("group levels differ from the configured ones after:%s",trace.c_str()));
		if (watchSip(LOG_ERR)!=(wl[1]>=3)||watchSip(LOG_INFO)!=(wl[1]>=6)||watchSip(LOG_DEBUG)!=(wl[1]>=7)) c.fail("log:watch","watch level of the group not respected after:"+trace);
		// records
		int k=r.range(1,6); for (int i=0;i<k;i++) { int f=r.below(3), l=r.below(8); bool grp=r.chance(1,3); std::string msg=recordText(r,++id); int lev=m.file(FN[f]); if (grp) lev=std::max(lev,gl[1]); bool expect=l<=lev; 
			drain(junk); if (grp) emitSip(f,l,msg); else emit(f,l,msg); out.clear(); drain(out); int n=0; for (auto &s:out) if (s.text.find(fmt("<%d>",id))!=std::string::npos) { n++; if (s.prio!=l) c.fail("log:priority",fmt("record of level %s passed on with priority %d",LN[l],s.prio)); if (!wellFormed(s.text,l,FN[f],100,EF[f],msg)) c.fail("log:text",fmt("record %s for message %s at %s:100",quote(s.text,400).c_str(),quote(msg).c_str(),FN[f])); }
			if (n!=(expect?1:0)) c.fail(expect?"log:missing":"log:unwanted",fmt("%d records of level %s from %s with level in force %s%s after:%s",n,LN[l],FN[f],LN[lev],grp?" (group)":"",trace.c_str())); c.count(expect?"records":"suppressed"); if (n && l<=LOG_CRIT && ce.ss.str().find(msg)==std::string::npos) c.fail("log:stderr","alarm not echoed to standard error"); }
		std::list<std::string> al=gGetLoggerAlarms(); std::deque<std::string> ad(al.begin(),al.end()); if (ad!=alarms) c.fail("log:alarms",fmt("%d alarms kept, expected %d (limit %ld); last %s expected %s",(int)ad.size(),(int)alarms.size(),maxAlarms,ad.empty()?"-":quote(ad.back()).c_str(),alarms.empty()?"-":quote(alarms.back()).c_str())); c.count("alarms",alarms.size());
	}
	for (auto &p:m.kv) if (p.second.size()) {} c.cover(trace+fmt("%d",id)); if (c.caseNo<2) c.sample(trace.substr(0,300)); resetAll(); syslogCapture(false);
}

static std::string slurp(const std::string &f) { std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
// messages for the console, and what the helpers for variables print
struct Obj { int x; void say() { OBJLOG(ERR) << "said" << x; } };
// very many source files: each has the level configured for it and no other's
SCENARIO(log_names)
{
	Rng &r=c.rng; resetAll(); Model m; std::set<std::string> ns; int n=r.range(100,1500); std::string base; for (int i=r.chance(1,4)?r.range(30,90):r.range(1,12);i>0;i--) base+="abcXYZ/_"[r.below(8)]; while ((int)ns.size()<n) { std::string s=base; switch (r.below(4)) { case 0: s+=fmt("%d.cpp",(int)r.below(100000)); break; case 1: s=fmt("%d",(int)r.below(100000))+s+".h"; break; case 2: for (int i=r.range(1,6);i>0;i--) s.insert(r.below(s.size()+1),1,(char)r.range('a','z')); break; default: s.clear(); for (int i=r.range(1,5);i>0;i--) s+="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"[r.below(64)]; } ns.insert(s); }
	std::vector<std::string> v(ns.begin(),ns.end()); int own=0; m.kv["Log.Level"]="WARNING"; gConfig.set("Log.Level","WARNING"); for (auto &x:v) if (r.chance(1,20)) { std::string k="Log.Level."+x, l=LN[r.below(8)]; gConfig.set(k,l); m.kv[k]=l; own++; } flushLevels();
	for (int round=0;round<2;round++) { for (size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]); for (auto &x:v) { int e=m.file(x.c_str()), g=gGetLoggingLevel(x.c_str()); if (g!=e) { c.fail("log:names",fmt("level of %s is %d expected %d among %d source files",quote(x).c_str(),g,e,n)); return; } } }
	c.count("names",n); c.count("own_levels",own); c.cover(fmt("%d %d ",n,own)+base); resetAll(); syslogCapture(false);
}
// the process number is that of the process which initialised logging, however it did
static int pidChild(int how, uint64_t seed)
{
	Rng r(seed); syslogTake(); if (how==0) gLogInit("child",NULL,LOG_USER); else if (how==1) { Log dummy("child",NULL,LOG_USER); } else if (how==2) gLogInitWithFile("child",NULL,LOG_USER,NULL); else { std::string f=tmpDir()+fmt("/plog%d",(int)getpid()); std::vector<char> p(f.begin(),f.end()); p.push_back(0); gLogInitWithFile("child","INFO",LOG_USER,p.data()); unlink(f.c_str()); }
	flushLevels(); std::string msg=recordText(r,1); syslogTake(); emit(0,LOG_ERR,msg); int ok=0; for (auto &s:syslogTake()) if (s.text.find("<1>")!=std::string::npos) ok=wellFormed(s.text,LOG_ERR,FN[0],100,EF[0],msg)?1:2; return ok==1?0:ok==2?3:4;
}
SCENARIO(log_process)
{
	resetAll(); int how=c.rng.below(4); uint64_t seed=c.rng.next(); pid_t p=fork(); if (p==0) { int q=open("/dev/null",O_WRONLY); if (q>=0) dup2(q,2); _exit(pidChild(how,seed)); } int st=0; if (p<0||waitpid(p,&st,0)!=p) return; if (!WIFEXITED(st)||WEXITSTATUS(st)) c.fail("log:process",fmt("in another process, initialised in way %d: %s",how,WIFEXITED(st)?WEXITSTATUS(st)==3?"the record does not carry its process":"no record":"it died")); c.count("processes"); c.cover(fmt("%d",how)); resetAll(); syslogCapture(false);
}
SCENARIO(log_watch)
{
	Rng &r=c.rng; CerrNull cn; resetAll(); std::string out=tmpDir()+"/stdout"; fflush(stdout); int keep=dup(1), fd=open(out.c_str(),O_RDWR|O_CREAT|O_TRUNC|O_APPEND,0600); if (keep<0||fd<0) abort(); dup2(fd,1); std::string trace;
	for (int round=0;round<3;round++) {
		int lev=r.below(8), gl=r.below(9)-1, wl=r.below(9)-1; gConfig.set("Log.Level",LN[lev]); if (gl>=0) gConfig.set("Log.Group.SIP",LN[gl]); else { gConfig.remove("Log.Group.SIP"); gl=0; } if (wl>=0) gConfig.set("Log.Watch.SIP",LN[wl]); else { gConfig.remove("Log.Watch.SIP"); wl=0; } gLogGroup.setAll(); flushLevels();
		for (int i=0;i<8;i++) { int kind=r.below(6); bool grp=r.chance(1,2); long n=(long)r.next(); std::string msg=fmt(" <%d.%d>",round,i); for (int j=r.below(40);j>0;j--) msg+=(char)r.range(' ',126); static const int wlev[]={7,7,6,3,6,7}; int rec=kind<=1?7:kind==2?6:-1; bool eRec=rec>=0 && rec<=(grp?std::max(lev,gl):lev), eCon=wlev[kind]<=(grp?wl:lev);
			syslogTake(); if (ftruncate(fd,0)) {} if (grp) watchMsgSip(kind,n,msg); else watchAlpha(kind,n,msg); std::string s=slurp(out), want=fmt("w=%ld",n)+msg; int nr=0; for (auto &x:syslogTake()) if (x.text.find(msg)!=std::string::npos) { nr++; if (x.prio!=rec) c.fail("watch:priority",fmt("priority %d",x.prio)); std::string t=x.text; while (t.size()&&t.back()=='\n') t.pop_back(); if (t.size()<want.size()||t.compare(t.size()-want.size(),want.size(),want)) c.fail("watch:text",quote(x.text)+" expected to end with "+quote(want)); }
			std::string d=fmt("kind %d, %s, level %s, group %s, watch %s: ",kind,grp?"in a group":"no group",LN[lev],LN[gl],LN[wl]); if (nr!=(eRec?1:0)) c.fail("watch:record",d+fmt("%d records passed on, expected %d",nr,eRec));
			if (!eCon) { if (s.size()) c.fail("watch:unwanted",d+"printed "+quote(s)); c.count("watch_silent"); } else { static const std::regex re("^([0-9]{2}:)?[0-9]{2}:[0-9]{2}(\\.[0-9]+)? $"); std::string w=want+"\n"; if (s.size()<w.size()||s.compare(s.size()-w.size(),w.size(),w)||s.find(want)!=s.size()-w.size()) c.fail("watch:console",d+"printed "+quote(s)+" expected one line ending with "+quote(want)); else if (!std::regex_match(s.substr(0,s.size()-w.size()),re)) c.fail("watch:time",d+"time shown as "+quote(s.substr(0,s.size()-w.size()))); c.count("watch_printed"); }
			trace+=fmt("%d%d%d%d.",kind,grp,eRec,eCon); }
		{ long num=(long)r.next()>>r.below(64); unsigned u=r.next()>>r.below(32); std::string txt=fmt("t%d",(int)r.below(99)); int mWidth=r.range(-99,99); BitVector bv(fmt("%d%d1",(int)r.below(2),(int)r.below(2)).c_str()); std::ostringstream s; s<<LOGVAR(num)<<LOGHEX(u)<<LOGVAR(u)<<LOGVARM(mWidth)<<LOGVARP(txt)<<LOGHEX2("hx",num)<<LOGVAR2("nm",num)<<LOGVARP2("pn",txt)<<LOGVARRANGE("rg",num,-1,10)<<LOGBV(bv)<<LOGBV2("b2",bv)<<LOGVAR(txt); std::string b; for (size_t i=0;i<bv.size();i++) b+=bv.bit(i)?'1':'0'; 
		std::string w=fmt(" num=%ld u=0x%x u=%u Width=%d txt=(%s) hx=0x%lx nm=%ld pn=(%s) rg=(%ld range:-1 to 10) bv=(%s size:3) b2=(%s size:3) txt=%s",num,u,u,mWidth,txt.c_str(),num,num,txt.c_str(),num,b.c_str(),b.c_str(),txt.c_str()); if (s.str()!=w) c.fail("watch:vars",quote(s.str())+" expected "+quote(w)); }
		{ Obj o; o.x=r.below(1000); syslogTake(); o.say(); int k=0; std::string w=fmt(": obj: %p said%d",(void*)&o,o.x); for (auto &x:syslogTake()) if (x.text.find("obj: ")!=std::string::npos) { k++; if (x.text.find(w)==std::string::npos) c.fail("watch:obj",quote(x.text)+" expected to hold "+quote(w)); } if (k!=(lev>=3)) c.fail("watch:record",fmt("%d object records at level %s",k,LN[lev])); LOG_ASSERT(o.x>=0); for (auto &x:syslogTake()) if (x.text.find("assertion")!=std::string::npos) c.fail("watch:assert","a true assertion was logged"); }
	}
	fflush(stdout); dup2(keep,1); close(keep); close(fd); c.cover(trace); resetAll(); syslogCapture(false);
}
SCENARIO(log_file)
{
	Rng &r=c.rng; CerrCatch ce; resetAll(); std::string path=tmpDir()+fmt("/log%llu",(unsigned long long)c.caseNo); { std::ofstream o(path); o<<"old contents\n"; } int how=r.below(3); vclockSet(1700000000000000LL+(int64_t)r.below(1000000000)*1000);
	std::string lv=LN[r.range(0,7)]; int L=levelOf(lv);
	if (how==0) { std::vector<char> p(path.begin(),path.end()); p.push_back(0); gLogInitWithFile("x",lv.c_str(),LOG_USER,p.data()); }
	else { static const char *cmd[]={"OpenBTS:","RMSC:","RangeFinderGW:","sipauthserve:",""}; int w=r.below(5); if (w<4&&r.chance(1,2)) { static const char *prog[]={"OpenBTS-transceiver-with-long-name","RMSC","RangeFinderGW","sipauthserve"}; try { ConfigurationTable other(":memory:",r.chance(1,2)||!w?prog[w]:std::string(cmd[w],strlen(cmd[w])-1).c_str()); c.count("named_by_table"); } catch (...) { c.fail("logfile:table","exception from opening a table"); } } else strcpy(gCmdName,cmd[w]); gConfig.set("Log.File",path); gLogInit("x",lv.c_str(),LOG_USER); bool want=w<3; if ((gLogToFile!=NULL)!=want) c.fail("logfile:open",fmt("log file %s for program %s",gLogToFile?"opened":"not opened",cmd[w])); if (!want) { if (slurp(path)!="old contents\n") c.fail("logfile:touched","file of another program changed"); unlink(path.c_str()); resetAll(); vclockOff(); syslogCapture(false); return; } }
	flushLevels(); if (!gLogToFile) { c.fail("logfile:open","log file not opened"); vclockOff(); return; }
	std::string head=slurp(path); if (head.compare(0,12,"Starting at ")||head.find("old")!=std::string::npos||head.back()!='\n') c.fail("logfile:head","a new log file does not start with its opening line: "+quote(head)); syslogTake();
	std::string second=path+".second"; std::string expect=head; auto reinit=[&]{ int k=r.below(5); std::vector<char> p; std::string to=k<3?path:second; p.assign(to.begin(),to.end()); p.push_back(0); if (r.chance(1,2)) strcpy(gCmdName,"OpenBTS:"); if (k==1||k==3) gConfig.set("Log.File",to); if (k==0||k==1) gLogInit("again",NULL,LOG_USER); else if (k==4) gLogInitWithFile("again",NULL,LOG_USER,NULL); else gLogInitWithFile("again",NULL,LOG_USER,p.data()); flushLevels(); c.count("reinitialised"); if (slurp(path)!=expect) c.fail("logfile:reinit","initialising again changed the open log file"); if (access(second.c_str(),F_OK)==0) { c.fail("logfile:reinit","initialising again opened another log file"); unlink(second.c_str()); } syslogTake(); };
	if (r.chance(1,2)) reinit(); int n=r.range(5,40); bool console=r.chance(1,4); gLogToConsole=console;
	for (int i=0;i<n;i++) { int l=r.below(8), f=r.below(3); std::string msg=recordText(r,i); switch (r.below(8)) { case 0: msg+="\n"; break; case 1: msg.insert(msg.find('>')+1+r.below(3),"\n"); break; case 2: msg+="\n\n"; break; } if (r.chance(1,200)) { size_t p=msg.find('>')+1; int k=r.range(5000,200000); std::string t; while ((int)t.size()<k) t+=(char)r.range(' ','~'); for (auto &x:t) if (x=='<'||x=='>') x='.'; msg.insert(p,t); c.count("long_records"); } if (r.chance(1,20)) vclockAdvance(r.below(5000000)); if (r.chance(1,40)) reinit(); emit(f,l,msg);
		for (auto &s:syslogTake()) { if (s.prio&~7) continue; expect+=s.text; if (s.text.empty()||s.text.back()!='\n') expect+="\n"; if (s.text.size()<msg.size()||s.text.compare(s.text.size()-msg.size(),msg.size(),msg)) c.fail("logfile:text","system log record differs from the message"); if (console && ce.ss.str().find(s.text)==std::string::npos) c.fail("logfile:console","record not shown on the console"); c.count("file_records"); }
		if (l<=L) { std::string got=slurp(path); if (got!=expect) { c.fail("logfile:content",fmt("after record %d the file holds %d bytes, expected %d; ends %s",i,(int)got.size(),(int)expect.size(),quote(got.substr(got.size()>80?got.size()-80:0)).c_str())); break; } if (got.find(fmt("<%d>",i))==std::string::npos) c.fail("logfile:lost","record not in the file when the call returned"); } }
	c.cover(expect); resetAll(); unlink(path.c_str()); vclockOff(); syslogCapture(false);
}
SCENARIO(log_threads)
{
	Rng &r=c.rng; CerrNull ce; resetAll(); setCaseLimit(120); std::string path=tmpDir()+fmt("/tlog%llu",(unsigned long long)c.caseNo); std::vector<char> p(path.begin(),path.end()); p.push_back(0); gLogInitWithFile("x","INFO",LOG_USER,p.data()); gConfig.set("Log.Alarms.Max",15L); flushLevels(); syslogTake(); std::string head=slurp(path);
	int nt=r.range(2,5), per=r.range(10,60), alarmEvery=r.range(3,9); std::vector<Worker*> ws; perturbOn(r.next(),r.range(0,2)); volatile int bar=0; std::vector<int> bad(nt,0); bool changer=r.chance(1,2);
	for (int t=0;t<nt;t++) { uint64_t sd=r.next(); Worker *w=new Worker; ws.push_back(w); w->start([&,t,sd]{ perturbThread(sd); Rng q(sd); spinBarrier(&bar,nt); for (int i=0;i<per;i++) { std::string msg=fmt("[%d:%d]",t,i); int x=q.below(q.chance(1,10)?3000:60); for (int k=0;k<x;k++) msg+=(char)q.range('!','~'); msg+=fmt("{%d:%d}",t,i); int l=i%alarmEvery==0?LOG_CRIT:q.chance(1,4)?LOG_DEBUG:q.range(LOG_ERR,LOG_INFO); emit(q.below(3),l,msg); if (q.chance(1,8)) { std::list<std::string> al=gGetLoggerAlarms(); if (al.size()>15) bad[t]++; int lv=gGetLoggingLevel("other.cpp"); if (lv!=LOG_INFO && lv!=LOG_ERR && lv!=LOG_DEBUG) bad[t]+=1000; } if (changer && t==0 && q.chance(1,6)) gConfig.set("Log.Level.other.cpp",q.chance(1,2)?"ERR":"DEBUG"); } }); }
	bool ok=joinAll(ws); perturbOff(); if (!ok) { c.fail("logthreads:stuck","logging threads made no progress"); abandonProcess(); } for (auto w:ws) delete w;
	for (int b:bad) { if (b%1000) c.fail("logthreads:alarm-limit","alarm list over its limit"); if (b/1000) c.fail("logthreads:level","a level never set was reported"); }
	std::vector<SyslogRec> sys=syslogTake(); std::multiset<std::string> a,b; std::map<int,int> last; std::vector<std::string> alarms; int own=0; std::string order;
	for (auto &s:sys) { if (s.prio&~7) continue; a.insert(s.text); int t,i; size_t q=s.text.find('['); if (q!=std::string::npos && sscanf(s.text.c_str()+q,"[%d:%d]",&t,&i)==2) { own++; order+=(char)('0'+t); } if (s.prio<=LOG_CRIT) alarms.push_back(s.text); }
	std::string all=slurp(path); std::istringstream is(all.substr(head.size())); std::string line; std::map<int,int> prev; if (all.size()&&all.back()!='\n') c.fail("logthreads:cut","the last record is not complete");
	while (std::getline(is,line)) { b.insert(line); int t,i; size_t q=line.find('['); if (q!=std::string::npos && sscanf(line.c_str()+q,"[%d:%d]",&t,&i)==2) { if (prev.count(t)&&prev[t]>=i) c.fail("logthreads:order",fmt("records of thread %d out of order",t)); prev[t]=i; } }
	if (a!=b) { std::string ex; for (auto &x:b) if (!a.count(x)) { ex=x; break; } c.fail("logthreads:records",fmt("%d records passed to the system log, %d lines in the file, e.g. %s",(int)a.size(),(int)b.size(),quote(ex).c_str())); }
	// which records were due: all but the debug ones
	std::map<std::pair<int,int>,int> seen; for (auto &x:a) { size_t q=x.find('['); int t,i; if (q!=std::string::npos&&sscanf(x.c_str()+q,"[%d:%d]",&t,&i)==2) { seen[{t,i}]++; if (x.size()<4||x.substr(x.size()-fmt("{%d:%d}",t,i).size())!=fmt("{%d:%d}",t,i)) c.fail("logthreads:mixed","record text mixed with another's"); } } for (auto &s:seen) if (s.second!=1) c.fail("logthreads:twice","record passed on twice"); for (int t=0;t<nt;t++) for (int i=0;i<per;i+=alarmEvery) if (!seen.count({t,i})) c.fail("logthreads:lost","record lost");
	std::list<std::string> al=gGetLoggerAlarms(); std::set<std::string> as(alarms.begin(),alarms.end()); if (al.size()!=std::min<size_t>(15,alarms.size())) { if (alarms.size()>=15||al.size()<alarms.size()) c.fail("logthreads:alarms",fmt("%d alarms listed, %d raised, limit 15",(int)al.size(),(int)alarms.size())); } if (alarms.size()>=15) { std::set<std::string> u(al.begin(),al.end()); if (u.size()!=al.size()) c.fail("logthreads:alarm-twice","an alarm listed twice"); for (auto &x:al) if (!as.count(x)) c.fail("logthreads:alarm-text","listed alarm was never raised"); }
	c.count("thread_records",own); c.cover(order); if (c.caseNo<1) c.sample(fmt("%d threads x %d records, order ",nt,per)+order.substr(0,60)); resetAll(); unlink(path.c_str()); syslogCapture(false);
}
