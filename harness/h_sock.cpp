// Datagram sockets over loopback UDP and Unix domain paths in the scratch directory.
#include "rt.h"
#include "leak.h"
#include <signal.h>
#include <atomic>
#include <memory>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "Configuration.h"
#include "Logger.h"
#include "Sockets.h"
using namespace rt;
ConfigurationTable gConfig;

static std::set<int> openFds() { std::set<int> s; DIR *d=opendir("/proc/self/fd"); if (!d) return s; while (struct dirent *e=readdir(d)) if (isdigit(e->d_name[0])&&atoi(e->d_name)!=dirfd(d)) s.insert(atoi(e->d_name)); closedir(d); return s; }
static void prep() { syslogCapture(true); static bool once; if (once) return; once=true; struct rlimit rl; getrlimit(RLIMIT_NOFILE,&rl); if (rl.rlim_cur<4096&&rl.rlim_max>=4096) { rl.rlim_cur=4096; setrlimit(RLIMIT_NOFILE,&rl); } int n=open("/dev/null",O_WRONLY); (void)n; struct sockaddr_in a; resolveAddress(&a,"localhost",1); }
struct FdCheck { Ctx &c; std::set<int> before; FdCheck(Ctx &cc) : c(cc), before(openFds()) {} ~FdCheck() { std::set<int> a=openFds(); if (a.size()>before.size()) c.fail("sock:fd-leak",fmt("%zu descriptors open before, %zu after all sockets were destroyed",before.size(),a.size())); for (int f:before) if (!a.count(f)) { c.fail("sock:fd-stolen",fmt("descriptor %d was closed by somebody else's socket",f)); break; } } };
// descriptors above 1023 for sockets opened meanwhile
struct HighFds { std::vector<int> v; HighFds(bool on) { if (on) for (int i=0;i<1200;i++) { int f=dup(2); if (f<0) break; v.push_back(f); if (f>1080) break; } } ~HighFds() { for (int f:v) close(f); } };
static std::string payload(Rng &r, bool big) { int n=r.chance(1,10)?0:r.chance(1,4)?r.range(1,8):big?(r.chance(1,2)?1500-1+r.below(3):r.range(1,4000)):r.range(1,400); std::string s(n,0); for (auto &ch:s) ch=(char)r.below(256); return s; }

struct Pkt { std::string data; int from; };
struct Sock { std::unique_ptr<UDPSocket> u; std::unique_ptr<UDDSocket> d; std::string path; int port=0; int dest=-1, lastSrc=-1; std::deque<Pkt> q; bool nb=false;
	DatagramSocket *s() { return u?(DatagramSocket*)u.get():(DatagramSocket*)d.get(); } };

SCENARIO(sock_model)
{
	prep(); Rng &r=c.rng; FdCheck fc(c); HighFds hf(r.chance(1,25)); bool high=!hf.v.empty(); bool unixDom=r.chance(1,2); int n=r.range(2,4); std::vector<Sock> S(n); std::string dir=tmpDir(); std::string prog;
	std::string bystander=dir+"/bystander"; { FILE *f=fopen(bystander.c_str(),"w"); if (f) { fputs("keep",f); fclose(f); } }
	auto openOne=[&](int i){ Sock &x=S[i]; x.q.clear(); x.dest=-1; x.lastSrc=-1; x.nb=false; if (unixDom) { x.path=dir+fmt("/s%d",i); if (r.chance(1,5)) { size_t want=r.chance(1,2)?107:r.range(x.path.size(),107); while (x.path.size()<want) x.path+='p'; } if (r.chance(1,3)) { x.d.reset(new UDDSocket()); x.d->open(x.path.c_str()); } else x.d.reset(new UDDSocket(x.path.c_str())); } else { x.u.reset(new UDPSocket(0)); x.port=x.u->port(); if (r.chance(1,6)) { x.u->open(0); x.port=x.u->port(); } if (x.port<=0) c.fail("sock:port","no port assigned"); } };
	for (int i=0;i<n;i++) openOne(i);
	auto setDest=[&](int i, int j){ if (unixDom) S[i].d->destination(S[j].path.c_str()); else S[i].u->destination(S[j].port,r.chance(1,3)?"localhost":"127.0.0.1"); S[i].dest=j; };
	auto addrOf=[&](int j, struct sockaddr_storage *ss)->const struct sockaddr* { memset(ss,0,sizeof *ss); if (unixDom) { struct sockaddr_un *a=(struct sockaddr_un*)ss; a->sun_family=AF_UNIX; strcpy(a->sun_path,S[j].path.c_str()); } else { struct sockaddr_in *a=(struct sockaddr_in*)ss; if (r.chance(1,2)) { if (!resolveAddress(a,fmt("127.0.0.1:%d",S[j].port).c_str())) c.fail("sock:resolve","numeric address refused"); } else { a->sin_family=AF_INET; a->sin_addr.s_addr=htonl(INADDR_LOOPBACK); a->sin_port=htons(S[j].port); } } return (struct sockaddr*)ss; };
	auto sent=[&](const char *how, int got, const std::string &data, int i, int j){ if (got!=(int)data.size()) { c.fail("sock:sent",fmt("%s of %zu bytes returned %d (%s sockets)",how,data.size(),got,unixDom?"unix":"udp")); return; } S[j].q.push_back(Pkt{data,i}); c.count("datagrams_sent"); };
	auto readOne=[&](int i){ Sock &x=S[i]; std::vector<char> buf(MAX_UDP_LENGTH+64); char pat=(char)r.below(256); std::fill(buf.begin(),buf.end(),pat); int got; bool expect=x.q.size();
		int64_t t0=monoNs(); unsigned to=expect?2000:r.chance(1,2)?0:r.below(4); bool timed=!x.nb||r.chance(1,2); if (!expect&&!timed&&!x.nb) timed=true;
		if (timed) got=x.s()->read(buf.data(),to); else { got=x.s()->read(buf.data()); for (int k=0;expect&&got<0&&k<2000;k++) { usleep(1000); got=x.s()->read(buf.data()); } }
		double ms=(monoNs()-t0)/1e6; prog+=fmt(" r%d=%d",i,got);
		if (!expect) { if (got!=-1) c.fail("sock:phantom",fmt("read %d bytes although nothing was sent to this socket",got)); else if (timed&&ms<(double)to-1) c.fail("sock:early",fmt("timed read of %u ms gave up after %.2f ms",to,ms)); for (char ch:buf) if (ch!=pat) { c.fail("sock:scribble","a read that returned nothing wrote to the buffer"); break; } c.count("empty_reads"); return; }
		if (got<0) { c.fail("sock:lost",fmt("a datagram of %zu bytes never arrived",x.q.front().data.size())); x.q.clear(); return; }
		size_t k=0; bool hit=false; for (;k<x.q.size();k++) { std::string w=x.q[k].data.substr(0,MAX_UDP_LENGTH); if ((int)w.size()==got&&!memcmp(w.data(),buf.data(),got)) { hit=true; break; } if (unixDom) break; }
		if (!hit) { c.fail("sock:content",fmt("read %d bytes, not what was sent (%zu bytes)",got,x.q.front().data.size())); x.q.pop_front(); return; } int from=x.q[k].from; x.q.erase(x.q.begin()+k);
		for (size_t z=got;z<buf.size();z++) if (buf[z]!=pat) { c.fail("sock:scribble",fmt("byte %zu of the buffer written by a read of %d bytes",z,got)); break; }
		x.lastSrc=from; if (from>=0) { bool ok=unixDom?std::string(x.d->source()->sun_path)==S[from].path&&x.d->source()->sun_family==AF_UNIX:ntohs(x.u->source()->sin_port)==S[from].port&&x.u->source()->sin_addr.s_addr==htonl(INADDR_LOOPBACK); if (!ok) c.fail("sock:source","wrong sender reported"); } c.count("datagrams_read"); };
	auto room=[&](int j){ return S[j].q.size()<(unixDom?8u:20u); };
	int ops=r.range(5,60);
	for (int o=0;o<ops;o++) { int i=r.below(n), j=r.below(n); std::string data=payload(r,true); note(fmt("sock op unix=%d high=%d",unixDom,high));
		switch (r.below(14)) {
		case 0: setDest(i,j); break;
		case 1: case 2: case 3: if (S[i].dest<0) setDest(i,j); if (!room(S[i].dest)) break; sent("write",S[i].s()->write(data.data(),data.size()),data,i,S[i].dest); break;
		case 4: { if (S[i].dest<0) setDest(i,j); if (!room(S[i].dest)) break; std::string t=data.substr(0,data.find('\0')); sent("string write",S[i].s()->write(t.c_str()),t+std::string(1,'\0'),i,S[i].dest); break; }
		case 5: case 6: { if (!room(j)) break; struct sockaddr_storage ss; if (r.chance(1,2)) sent("send",S[i].s()->send(addrOf(j,&ss),data.data(),data.size()),data,i,j); else { std::string t=data.substr(0,data.find('\0')); sent("string send",S[i].s()->send(addrOf(j,&ss),t.c_str()),t+std::string(1,'\0'),i,j); } break; }
		case 7: case 8: { int k=S[i].lastSrc; if (k<0||!room(k)) break; if (r.chance(1,2)) sent("writeBack",S[i].s()->writeBack(data.data(),data.size()),data,i,k); else { std::string t=data.substr(0,data.find('\0')); sent("string writeBack",S[i].s()->writeBack(t.c_str()),t+std::string(1,'\0'),i,k); } c.count("replies"); break; }
		case 9: S[i].nb=r.chance(1,2); if (S[i].nb) S[i].s()->nonblocking(); else S[i].s()->blocking(); break;
		case 12: if (r.chance(1,4)) { // closing: the descriptor is released once, whoever gets the number next keeps it
			S[i].s()->close(); int f=open("/dev/null",O_RDONLY); if (r.chance(1,3)) S[i].s()->close(); S[i].u.reset(); S[i].d.reset(); if (fcntl(f,F_GETFD)<0) c.fail("sock:double-close","destroying a closed socket closed a descriptor which was not its own"); close(f); for (auto &y:S) { for (auto &p:y.q) if (p.from==i) p.from=-1; if (y.lastSrc==i) y.lastSrc=-1; if (y.dest==i) y.dest=-1; } openOne(i); c.count("closes"); } else if (!unixDom&&r.chance(1,4)) { // another port, the same destination
			Sock &x=S[i]; x.u->open(0); x.port=x.u->port(); x.q.clear(); x.nb=false; for (auto &y:S) { for (auto &p:y.q) if (p.from==i) p.from=-1; if (y.lastSrc==i) y.lastSrc=-1; if (y.dest==i) y.dest=-1; } c.count("reopened"); } break;
		case 13: if (unixDom&&S[i].q.empty()&&r.chance(1,3)) { // a sender without an address: no reply may reach anybody else
			int f=socket(AF_UNIX,SOCK_DGRAM,0); struct sockaddr_storage ss; const struct sockaddr *a=addrOf(i,&ss); std::string m="anonymous"; if (sendto(f,m.data(),m.size(),0,a,sizeof(struct sockaddr_un))==(int)m.size()) { S[i].q.push_back(Pkt{m,-1}); readOne(i); if (S[i].s()->writeBack("reply")>=0) c.fail("sock:misreply","a reply to a sender without an address was sent somewhere"); S[i].lastSrc=-1; c.count("anonymous"); } close(f); } break;
		default: readOne(i); } }
	for (int i=0;i<n;i++) { int k=S[i].q.size(); while (k-->0) readOne(i); S[i].s()->nonblocking(); S[i].nb=true; readOne(i); }
	S.clear(); { FILE *f=fopen(bystander.c_str(),"r"); char b[8]={0}; if (!f||!fgets(b,8,f)||strcmp(b,"keep")) c.fail("sock:bystander","another file was removed or changed"); if (f) fclose(f); }
	c.cover(prog+(unixDom?"u":"i")); c.count(high?"high_descriptor_cases":"cases"); if (c.caseNo<2) c.sample((unixDom?"unix:":"udp:")+prog.substr(0,300));
}

static void onUsr2(int) {}
static void signalsOf(bool restart) { struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=onUsr2; a.sa_flags=restart?SA_RESTART:0; sigaction(SIGUSR2,&a,NULL); }
SCENARIO(sock_wait)
{
	prep(); Rng &r=c.rng; FdCheck fc(c); HighFds hf(r.chance(1,12)); std::string dir=tmpDir(); bool ud=r.chance(1,2); std::unique_ptr<UDPSocket> u; std::unique_ptr<UDDSocket> d, d2; std::unique_ptr<UDPSocket> u2; DatagramSocket *rx,*tx;
	if (ud) { d.reset(new UDDSocket((dir+"/rx").c_str())); d2.reset(new UDDSocket((dir+"/tx").c_str(),(dir+"/rx").c_str())); rx=d.get(); tx=d2.get(); } else { u.reset(new UDPSocket(0)); u2.reset(new UDPSocket(0,"127.0.0.1",u->port())); rx=u.get(); tx=u2.get(); }
	std::vector<char> buf(MAX_UDP_LENGTH); std::string m=payload(r,false)+"x"; int kind=r.below(3); for (int k=r.below(3);k>0;k--) { rx->nonblocking(); if (r.chance(1,2)&&rx->read(buf.data())!=-1) c.fail("sock:phantom","read something although nothing was sent"); rx->blocking(); c.count("mode_changes"); }
	int sigs=r.chance(1,3)?r.range(1,4):0; std::atomic<bool> up(false); volatile pthread_t self=0; signalsOf(r.chance(1,4)); auto interrupt=[&](Worker &w){ for (int i=0;i<sigs;i++) { usleep(r.range(200,12000)); if (!w.done) { pthread_kill(self,SIGUSR2); c.count("signals_handled_waiting"); } } };
	if (kind==0) { unsigned to=r.range(5,120); int got=-2; double ms=0; Worker w; w.start([&]{ self=pthread_self(); up=true; int64_t t0=monoNs(); try { got=rx->read(buf.data(),to); } catch (SocketError) { got=-3; } ms=(monoNs()-t0)/1e6; }); waitFor([&]{ return (bool)up; },5); interrupt(w); w.join(); if (got==-3) { c.fail("sock:interrupted",fmt("timed read of %u ms failed with an error after %.2f ms, %d signals handled meanwhile",to,ms,sigs)); got=-1; ms=to; } int64_t t0; if (got!=-1) c.fail("sock:phantom","read something although nothing was sent"); if (ms<to-1.0) c.fail("sock:early",fmt("timed read of %u ms gave up after %.2f ms",to,ms)); if (ms>to+1500) { t0=monoNs(); rx->read(buf.data(),to); double ms2=(monoNs()-t0)/1e6; if (ms2>to+1500) c.fail("sock:late",fmt("timed read of %u ms took %.0f ms, again %.0f ms",to,ms,ms2)); } c.count("timeouts"); }
	else { bool timed=kind==1; unsigned to=r.chance(1,2)?20000:r.chance(1,2)?4000000000u:61000; int got=-2; double ms=0; Worker w; w.start([&]{ self=pthread_self(); up=true; int64_t t0=monoNs(); try { got=timed?rx->read(buf.data(),to):rx->read(buf.data()); } catch (SocketError) { got=-3; } ms=(monoNs()-t0)/1e6; });
		waitFor([&]{ return w.tid!=0&&up; },5); usleep(r.range(500,8000)); interrupt(w); bool early=w.done; if (tx->write(m.data(),m.size())!=(int)m.size()) { c.fail("sock:sent","write failed"); }
		if (!waitFor([&]{ return w.done; },10)) { c.fail("sock:not-woken",fmt("%s read does not return although a datagram has been sent",timed?"timed":"blocking")); abandonProcess(); } w.join(); if (early) c.fail("sock:early",fmt("%s read returned %d before anything was sent",timed?"timed":"blocking",got)); else if (got!=(int)m.size()||memcmp(buf.data(),m.data(),got)) c.fail("sock:content",fmt("read returned %d for a datagram of %zu bytes",got,m.size())); c.count("woken"); }
	c.cover(fmt("%d %d ",kind,(int)ud)+m);
}

SCENARIO(sock_stress)
{
	prep(); Rng &r=c.rng; FdCheck fc(c); bool ud=r.chance(2,3); std::string dir=tmpDir(); int nt=r.range(2,4), per=r.range(10,60); std::unique_ptr<UDPSocket> u; std::unique_ptr<UDDSocket> d; DatagramSocket *rx; if (ud) { d.reset(new UDDSocket((dir+"/rx").c_str())); rx=d.get(); } else { u.reset(new UDPSocket(0)); rx=u.get(); } int port=ud?0:u->port();
	bool shared=r.chance(1,2); std::vector<std::unique_ptr<DatagramSocket>> tx; for (int i=0;i<(shared?1:nt);i++) tx.emplace_back(ud?(DatagramSocket*)new UDDSocket((dir+fmt("/t%d",i)).c_str(),(dir+"/rx").c_str()):(DatagramSocket*)new UDPSocket(0,"127.0.0.1",port));
	auto body=[&](int t, int i){ Rng q(t*1000003+i+c.seed*7); int len=8+q.below(900); std::string s(len,0); uint32_t h[2]={(uint32_t)t,(uint32_t)i}; memcpy(&s[0],h,8); for (int k=8;k<len;k++) s[k]=(char)q.below(256); return s; };
	std::vector<Worker> w(nt); std::atomic<int> sent(0), failed(0); for (int t=0;t<nt;t++) w[t].start([&,t]{ for (int i=0;i<per;i++) { std::string s=body(t,i); int g=tx[shared?0:t]->write(s.data(),s.size()); if (g==(int)s.size()) sent++; else failed++; } });
	std::vector<int> next(nt,0); int got=0; std::set<std::pair<int,int>> seen; std::vector<char> buf(MAX_UDP_LENGTH);
	while (got<nt*per) { int g=rx->read(buf.data(),2000); if (g<0) break; got++; uint32_t h[2]={~0u,~0u}; if (g>=8) memcpy(h,buf.data(),8); if (g<8||(int)h[0]>=nt||(int)h[1]>=per) { c.fail("sock:content","unknown datagram"); continue; } std::string s=body(h[0],h[1]); if ((int)s.size()!=g||memcmp(s.data(),buf.data(),g)) c.fail("sock:content","datagram changed under concurrent senders"); if (!seen.insert({(int)h[0],(int)h[1]}).second) c.fail("sock:twice","datagram delivered twice"); if (ud&&!shared) { if ((int)h[1]!=next[h[0]]) c.fail("sock:order","datagrams of one sender out of order"); next[h[0]]=h[1]+1; } }
	for (auto &x:w) x.join(); if (failed) c.fail("sock:sent",fmt("%d of %d writes failed",(int)failed,nt*per)); if (ud&&got!=nt*per) c.fail("sock:lost",fmt("%d of %d datagrams arrived over a unix socket",got,nt*per)); c.count("datagrams_read",got); c.cover(fmt("%d %d %d %d %llu",ud,nt,per,shared,(unsigned long long)c.caseNo));
}

SCENARIO(sock_edge)
{
	prep(); Rng &r=c.rng; FdCheck fc(c); std::string dir=tmpDir();
	// a socket which was never opened owns no descriptor, whatever was in its memory before
	{ int f=open("/dev/null",O_RDONLY); alignas(16) static char mem[2048]; for (size_t i=0;i+4<=sizeof mem;i+=4) memcpy(mem+i,&f,4); UDDSocket *s=new (mem) UDDSocket(NULL,r.chance(1,2)?"/nonexistent/x":NULL); if (s->write("x",1)!=-1) c.fail("sock:unopened","write on a socket which was never opened did not fail"); s->~UDDSocket(); if (fcntl(f,F_GETFD)<0) c.fail("sock:fd-stolen","destroying a socket which was never opened closed somebody else's descriptor"); close(f); }
	// paths which do not fit are refused; those which just fit are not
	{ UDDSocket s((dir+"/e").c_str()); for (int k=0;k<3;k++) { std::string p=dir+"/"; size_t want=r.chance(1,2)?106+r.below(4):r.range(100,600); while (p.size()<want) p+='q'; bool fits=p.size()<sizeof(((struct sockaddr_un*)0)->sun_path), threw=false; try { if (r.chance(1,2)) s.destination(p.c_str()); else { UDDSocket t(p.c_str()); c.count("long_paths_opened"); } } catch (SocketError) { threw=true; } if (threw==fits) c.fail("sock:path",fmt("path of %zu characters %s",p.size(),threw?"refused":"accepted")); } }
	{ bool threw=false; try { UDDSocket t((dir+"/no/such/dir/x").c_str()); } catch (SocketError) { threw=true; } if (!threw) c.fail("sock:bind","opening in a directory which does not exist did not fail"); UDDSocket s((dir+"/e").c_str(),(dir+"/nobody").c_str()); if (s.write("x",1)!=-1) c.fail("sock:nobody","write to a path nobody has opened did not fail"); UDDSocket s2; s2.destination((dir+"/nobody").c_str()); }
	// reopening a path takes it over
	{ std::string p=dir+"/take"; UDDSocket a(p.c_str()); UDDSocket b(p.c_str()); UDDSocket t((dir+"/e").c_str(),p.c_str()); char buf[MAX_UDP_LENGTH]; a.nonblocking(); if (t.write("hello",5)!=5||b.read(buf,2000)!=5||a.read(buf)!=-1) c.fail("sock:takeover","datagram did not go to the socket which opened the path last"); }
	// explicit ports
	try { int p=20000+(getpid()*31+c.caseNo)%12000; UDPSocket b(p); if (b.port()!=p) c.fail("sock:port",fmt("opened port %d, reports %d",p,b.port())); UDPSocket t(0,"localhost",p); char buf[MAX_UDP_LENGTH]; if (t.write("hello")!=6||b.read(buf,2000)!=6||strcmp(buf,"hello")) c.fail("sock:explicit-port","datagram to an explicit port not received"); c.count("explicit_ports"); } catch (SocketError) { c.count("port_in_use"); }
	// names and addresses
	for (int k=0;k<6;k++) { int A=r.below(256),B=r.below(256),C=r.below(256),D=r.below(256),port=r.chance(1,3)?65535-r.below(2):r.range(0,65535); struct sockaddr_in a; memset(&a,0x5a,sizeof a); bool lh=r.chance(1,4); std::string h=lh?"localhost":fmt("%d.%d.%d.%d",A,B,C,D); bool ok=r.chance(1,2)?resolveAddress(&a,(h+fmt(r.chance(1,4)?":%05d":":%d",port)).c_str()):resolveAddress(&a,h.c_str(),port); uint32_t want=lh?INADDR_LOOPBACK:((uint32_t)A<<24|B<<16|C<<8|D); if (!ok) { c.fail("sock:resolve",h+" refused"); continue; } if (a.sin_family!=AF_INET||ntohs(a.sin_port)!=port||ntohl(a.sin_addr.s_addr)!=want) c.fail("sock:resolve",fmt("%s:%d resolved to %08x:%d",h.c_str(),port,ntohl(a.sin_addr.s_addr),ntohs(a.sin_port))); c.count("resolved"); c.cover(h+fmt("%d",port)); }
	{ struct sockaddr_in a; long l=leakedBytes([&]{ std::string s="127.0.0.1 no port given at all, which is a long text"; if (resolveAddress(&a,s.c_str())) c.fail("sock:resolve","address without port accepted"); syslogTake(); }); if (l) c.fail("sock:resolve-leak",fmt("%ld bytes lost by refusing an address without port",l)); }
	if (r.chance(1,4)) { /* a label which is too long for the domain name system, so nobody is asked */ struct sockaddr_in a; memset(&a,0,sizeof a); std::string h(r.range(64,220),'x'); if (r.chance(1,2)) h+=".1.2.3.4"; bool ok=r.chance(1,2)?resolveAddress(&a,(h+":99").c_str()):resolveAddress(&a,h.c_str(),99); if (ok) c.fail("sock:resolve",h+" resolved to an address"); c.count("unresolvable"); }
	// descriptor number 0 is as good as any other
	if (r.chance(1,3)) { int save=dup(0); close(0); bool ud=r.chance(1,2); { std::unique_ptr<UDPSocket> u; std::unique_ptr<UDDSocket> d; DatagramSocket *s; try { if (ud) { d.reset(new UDDSocket((dir+"/zero").c_str(),(dir+"/zero").c_str())); s=d.get(); } else { u.reset(new UDPSocket(0)); u->destination(u->port(),"127.0.0.1"); s=u.get(); }
		char buf[MAX_UDP_LENGTH]; if (s->write("zero",4)!=4||s->read(buf,2000)!=4||memcmp(buf,"zero",4)) c.fail("sock:zero","a socket with descriptor 0 does not deliver"); if (r.chance(1,2)) s->close(); } catch (SocketError) { c.fail("sock:zero","a socket with descriptor 0 cannot be opened or read"); } }
		if (fcntl(0,F_GETFD)>=0) { c.fail("sock:zero-leak","descriptor 0 is still open after its socket was destroyed"); } if (dup2(save,0)<0) abort(); close(save); c.count("descriptor_zero"); }
	// failures are reported and leak nothing
	if (r.chance(1,3)) { struct rlimit rl, low; getrlimit(RLIMIT_NOFILE,&rl); int nf=dup(2); close(nf); low=rl; low.rlim_cur=nf; setrlimit(RLIMIT_NOFILE,&low); int k=r.below(3); bool threw=false; try { if (k==0) UDPSocket u(0); else if (k==1) UDDSocket d((dir+"/full").c_str()); else { UDPSocket u(0,"127.0.0.1",9); } } catch (SocketError) { threw=true; } setrlimit(RLIMIT_NOFILE,&rl); if (!threw) c.fail("sock:no-error","opening a socket without a free descriptor reported no error"); c.count("open_failures"); }
	if (r.chance(1,3)) { int f=socket(AF_INET,SOCK_DGRAM,0); struct sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; socklen_t l=sizeof a; if (bind(f,(struct sockaddr*)&a,sizeof a)==0&&getsockname(f,(struct sockaddr*)&a,&l)==0) { int p=ntohs(a.sin_port); bool threw=false; int k=r.below(2); UDPSocket v(0); try { if (k) { v.open(p); } else UDPSocket u(p); } catch (SocketError) { threw=true; } if (!threw) c.fail("sock:no-error",fmt("opening port %d, which is taken, reported no error",p)); if (k&&r.chance(1,2)) { try { v.open(0); if (v.port()<=0) c.fail("sock:port","no port after reopening"); } catch (SocketError) { c.fail("sock:reopen","a socket cannot be opened again after a failure"); } } c.count("open_failures"); } close(f); }
	{ UDPSocket v(0); int p=v.port(); v.close(); bool threw=false; try { v.port(); } catch (SocketError) { threw=true; } char buf[MAX_UDP_LENGTH]; bool threw2=false; try { v.read(buf); } catch (SocketError) { threw2=true; } if (!threw||!threw2||v.write("x",1)!=-1) c.fail("sock:closed","a closed socket reported no error"); (void)p; }
}
