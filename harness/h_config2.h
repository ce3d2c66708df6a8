// (included by h_config.cpp) validation of values against their declared type, dumps and descriptions
static bool ipOk(const std::string &s) { int n=0; size_t i=0; while (true) { size_t j=i; int v=0; while (j<s.size()&&isdigit((unsigned char)s[j])&&j-i<4) { v=v*10+s[j]-'0'; j++; } if (j==i||j-i>3||v>255) return false; if (j-i>1&&s[i]=='0') return false; n++; if (n==4) return j==s.size(); if (j>=s.size()||s[j]!='.') return false; i=j+1; } }
static bool uintOk(const std::string &s, long lo, long hi) { if (s.empty()||s.size()>15) return false; for (char ch:s) if (!isdigit((unsigned char)ch)) return false; long v=atol(s.c_str()); return v>=lo&&v<=hi; }
static bool charsOk(const std::string &s, const char *extra) { if (s.empty()) return false; for (char ch:s) if (!isalnum((unsigned char)ch)&&!strchr(extra,ch)) return false; return true; }
static std::string rip(Rng &r) { return fmt("%d.%d.%d.%d",(int)r.below(256),(int)r.below(256),(int)r.below(256),(int)r.below(256)); }
static std::string mutate(Rng &r, std::string s) { switch (r.below(9)) { case 7: s.insert(r.below(s.size()+1),r.chance(1,2)?"\n":r.chance(1,2)?"\n#\n":"\r\n"); break; case 8: { /* a number which only looks small where it is cut to 32 or 64 bits */ size_t p=s.find_last_of(":/"); if (p==std::string::npos) p=0; else p++; long v=atol(s.c_str()+p); s=s.substr(0,p)+(r.chance(1,2)?fmt("%ld",4294967296L+v):r.chance(1,2)?fmt("1844674407370955%d",1616+(int)v%8000):fmt("%ld",65536+v)); break; } case 0: if (s.size()) s.erase(r.below(s.size()),1); break; case 1: s.insert(r.below(s.size()+1),1,"0123456789.:/-+ abcxyz"[r.below(22)]); break; case 2: s+="abc: /.1"[r.below(8)]; break; case 3: s=" "+s; break; case 4: if (s.size()) s[r.below(s.size())]="0123456789.:/- az"[r.below(17)]; break; case 5: { size_t p=s.find_first_of(":/"); if (p!=std::string::npos) s=r.chance(1,2)?s.substr(0,p):s.substr(p+1); break; } default: { size_t p=s.find_first_of(":/."); if (p!=std::string::npos) s.insert(p,1,s[p]); } } return s; }
SCENARIO(config_valid)
{
	quiet(); Scope S; Rng &r=c.rng; vclockSet(1000000000000LL); typedef ConfigurationKey K; ConfigurationKeyMap sch;
	struct D { const char *n; K::Type t; const char *vv; }; static const D ds[]={{"bool",K::BOOLEAN,""},{"choice",K::CHOICE,"EMERG|EMERGENCY - x,ALERT|ALERT - y,CRIT|c,3|three,10|ten"},{"choiceo",K::CHOICE_OPT,"0|zero,1|one,22|twentytwo"},{"choicep",K::CHOICE,"850,900,1800,1900"},{"choicepo",K::CHOICE_OPT,"red,green"},{"choice1",K::CHOICE,"only"},{"choicem",K::CHOICE,"850|GSM 850,900,1800|DCS"},{"cidr",K::CIDR,""},{"cidro",K::CIDR_OPT,""},{"path",K::FILEPATH,""},{"patho",K::FILEPATH_OPT,""},{"hp",K::HOSTANDPORT,""},{"hpo",K::HOSTANDPORT_OPT,""},{"ip",K::IPADDRESS,""},{"ipo",K::IPADDRESS_OPT,""},{"ipp",K::IPANDPORT,""},{"mip",K::MIPADDRESS,""},{"mipo",K::MIPADDRESS_OPT,""},{"port",K::PORT,""},{"porto",K::PORT_OPT,""},{"regex",K::REGEX,""},{"regexo",K::REGEX_OPT,""},{"str",K::STRING,"^[0-9]{5,6}$"},{"stro",K::STRING_OPT,"^[a-z]+$"},{"str2",K::STRING,"ab"},{"r1",K::VALRANGE,"1:10"},{"r2",K::VALRANGE,"-5:5"},{"r3",K::VALRANGE,"0:65535(5)"},{"r4",K::VALRANGE,"0.0:10.5"},{"r5",K::VALRANGE,"-1.5:2.25(0.25)"},{"r6",K::VALRANGE,"0:2147483646"},{"r7",K::VALRANGE,"100:100"},{"r8",K::VALRANGE,"-50:-10"},{"r9",K::VALRANGE,"-2.5:-0.5(0.5)"},{"r10",K::VALRANGE,"-100:-90(2)"},{"r11",K::VALRANGE,"0:0"},{"r12",K::VALRANGE,"10:20(1)"},{"r13",K::VALRANGE,"-2000000000:2000000000"},{"r14",K::VALRANGE,"0.5:0.75"}};
	static const int ND=sizeof ds/sizeof *ds; for (auto &d:ds) sch[d.n]=mkKey(d.n,"",d.t,d.vv); ConfigurationTable *t=S.open(":memory:",sch);
	for (int it=0;it<60;it++) { const D &d=ds[r.below(ND)]; std::string v; bool ok=false, opt=false; std::string n=d.n;
		switch (d.t) {
		case K::BOOLEAN: { static const char *x[]={"0","1","","2","00","01","true","yes"," 1","1 ","-1"}; v=x[r.below(11)]; ok=v=="0"||v=="1"; break; }
		case K::CHOICE_OPT: opt=true; case K::CHOICE: { std::vector<std::string> ch, de; std::string vv=d.vv; size_t p=0; while (p<=vv.size()) { size_t e=vv.find(',',p); if (e==std::string::npos) e=vv.size(); std::string x=vv.substr(p,e-p); size_t b=x.find('|'); ch.push_back(x.substr(0,b)); if (b!=std::string::npos) de.push_back(x.substr(b+1)); p=e+1; } switch (r.below(5)) { case 0: case 1: v=r.pick(ch); break; case 2: if (de.size()) { v=r.pick(de); break; } case 3: v=mutate(r,r.pick(ch)); break; default: v=r.chance(1,2)?"":r.chance(1,2)?vv:r.pick(ch)+","+r.pick(ch); } for (auto &x:ch) if (x==v) ok=true; break; }
		case K::CIDR_OPT: opt=true; case K::CIDR: { v=rip(r)+"/"+fmt("%d",(int)r.range(0,r.chance(1,3)?60:33)); if (r.chance(1,2)) v=mutate(r,v); size_t p=v.find('/'); ok=p!=std::string::npos&&ipOk(v.substr(0,p))&&uintOk(v.substr(p+1),0,32); break; }
		case K::FILEPATH_OPT: opt=true; case K::FILEPATH: { v="/var/log/a-b_c.d9Z"; v=v.substr(0,r.below(v.size()+1)); if (r.chance(1,2)) v=mutate(r,v); if (r.chance(1,4)) v.insert(r.below(v.size()+1),1,"$;'\"*\\\n()|&\xe9"[r.below(12)]); ok=charsOk(v,"/_.-"); break; }
		case K::HOSTANDPORT_OPT: opt=true; case K::HOSTANDPORT: { v=(r.chance(1,2)?rip(r):std::string("my-host_1.example.org"))+":"+fmt("%d",(int)(r.chance(1,3)?r.range(65530,65540):r.chance(1,3)?r.range(0,2):r.range(1,70000))); if (r.chance(1,2)) v=mutate(r,v); size_t p=v.find(':'); ok=p!=std::string::npos&&charsOk(v.substr(0,p),"_.-")&&uintOk(v.substr(p+1),1,65535); break; }
		case K::IPADDRESS_OPT: opt=true; case K::IPADDRESS: v=rip(r); if (r.chance(1,2)) v=mutate(r,v); if (r.chance(1,8)) v="localhost"; ok=ipOk(v); break;
		case K::IPANDPORT: { v=rip(r)+":"+fmt("%d",(int)(r.chance(1,3)?r.range(65530,65540):r.range(0,70000))); if (r.chance(1,2)) v=mutate(r,v); size_t p=v.find(':'); ok=p!=std::string::npos&&ipOk(v.substr(0,p))&&uintOk(v.substr(p+1),1,65535); break; }
		case K::MIPADDRESS_OPT: opt=true; case K::MIPADDRESS: { int k=r.range(1,4); ok=true; for (int i=0;i<k;i++) { std::string x=rip(r); if (r.chance(1,2)) x+=fmt(":%d",(int)r.range(1,r.chance(1,5)?70000:65535)); if (r.chance(1,6)) { std::string y=mutate(r,x); if (y.find(' ')==std::string::npos) x=y; } size_t p=x.find(':'); bool one=ipOk(x.substr(0,p))&&(p==std::string::npos||uintOk(x.substr(p+1),1,65535)); if (!one) ok=false; if (i) v+=" "; v+=x; } if (r.chance(1,12)) { v=""; ok=false; } break; }
		case K::PORT_OPT: opt=true; case K::PORT: v=fmt("%d",(int)(r.chance(1,3)?r.range(65530,65540):r.chance(1,3)?r.range(-2,3):r.range(1,70000))); if (r.chance(1,3)) v=mutate(r,v); if (r.chance(1,12)) v=r.chance(1,2)?"":"99999999999"; ok=uintOk(v,1,65535); break;
		case K::REGEX_OPT: opt=true; case K::REGEX: { static const char *g[]={"^a+$","[0-9]{2,3}","a|b","(x(y)z)*",".","\\.", "abc"}; static const char *b[]={"(","[a","a{2","*a\\","a{3,2}","[[:foo:]]","(a|b"}; ok=r.chance(1,2); v=ok?g[r.below(7)]:b[r.below(7)]; break; }
		case K::STRING_OPT: opt=true; case K::STRING: { int l=r.range(0,9); for (int i=0;i<l;i++) v+=n=="str"?(char)('0'+r.below(r.chance(1,10)?20:10)):"abAB1"[r.below(r.chance(1,3)?5:2)]; if (r.chance(1,8)) v.insert(r.below(v.size()+1),r.chance(1,2)?"\n":"\n\n"); if (n=="str") { ok=v.size()>=5&&v.size()<=6; for (char x:v) if (!isdigit(x)) ok=false; } else if (n=="stro") { ok=!v.empty(); for (char x:v) if (!islower(x)) ok=false; } else ok=v.find("ab")!=std::string::npos; break; }
		case K::VALRANGE: { std::string vv=d.vv; size_t p=vv.find('('); vv=vv.substr(0,p); bool fl=std::string(d.vv).find('.')!=std::string::npos; size_t q=vv.find(':'); double lo=atof(vv.c_str()), hi=atof(vv.substr(q+1).c_str()); if (!fl) { long x=r.chance(1,4)?(long)lo-1+(long)r.below(3):r.chance(1,4)?(long)hi-1+(long)r.below(3):r.chance(1,6)?(long)r.range(-3000000000LL,9000000000LL):lo+(long)r.below((long)(hi-lo)*2+3); v=fmt("%ld",x); ok=x>=lo&&x<=hi; } else { double x=lo-1+r.unit()*(hi-lo+2); x=std::round(x*100)/100; v=fmt("%.2f",x); if (r.chance(1,3)) { x=std::floor(x); v=fmt("%d",(int)x); } ok=(float)x>=(float)lo&&(float)x<=(float)hi; }
			if (r.chance(1,3)) { static const char *junk[]={"","abc","-","--3","5-","1-2","3..4","1.2.3","+5"," 5","5 ","0x5","1e1",".","5a","-.","4,5"}; v=junk[r.below(17)]; ok=false; } break; }
		}
		if (d.t!=K::REGEX && d.t!=K::REGEX_OPT && r.chance(1,20)) { v=std::string(r.range(1,3),r.chance(1,8)?'\t':' '); ok=false; }	// blanks only are no value of any kind, nor the empty one
		if (opt && v.empty()) ok=true;
		bool g=r.chance(1,4)&&v.size()<9&&v.size()&&v==fmt("%d",atoi(v.c_str()))?t->isValidValue(n,atoi(v.c_str())):t->isValidValue(n,v); c.count(ok?"valid_values":"invalid_values");
		if (g!=ok) { c.fail(std::string("valid:")+(ok?"refused:":"accepted:")+n,fmt("%s as %s (%s): %s",quote(v).c_str(),K::typeToString(d.t).c_str(),d.vv,g?"accepted":"refused")); }
		c.cover(n+v); if (c.caseNo<1&&it<5) c.sample(n+" "+quote(v)+(ok?" valid":" invalid")); }
	// a key nobody declared has no valid values, and asking does not declare it
	std::string u=fmt("No.Such.Key%d",(int)r.below(9)); t->isValidValue(u,"1"); if (t->keyDefinedInSchema(u) || t->getSimilarKeys(u).size() || t->defines(u)) c.fail("valid:declares","asking whether a value is valid for an undeclared key declared the key"); if (t->isValidValue(u,"1")||t->isValidValue(u,"")) c.fail("valid:undeclared","value accepted for an undeclared key"); for (auto &d:ds) if (!t->keyDefinedInSchema(d.n)) c.fail("valid:schema","declared key missing");
	vclockOff();
}

static std::string esc(std::string s) { std::string o; for (char ch:s) { if (ch=='^'||ch=='_') o+='\\'; o+=ch; } return o; }
static std::vector<std::string> gCrossSeen; static std::vector<std::string> crossCb(const std::string &k) { gCrossSeen.push_back(k); return {"warn "+k,"second"}; }
static int gHook; static void hookCb(void*,int,char const*,char const*,sqlite3_int64) { gHook++; }
SCENARIO(config_dump)
{
	quiet(); Scope S; Rng &r=c.rng; vclockSet(1000000000000LL); typedef ConfigurationKey K; bool hostile=r.chance(1,2); ConfigurationKeyMap sch; int n=r.range(0,14); static const K::Type ty[]={K::BOOLEAN,K::STRING,K::PORT,K::VALRANGE,K::CHOICE,K::IPADDRESS_OPT,K::FILEPATH};
	for (int i=0;i<n;i++) { std::string k=fmt("App%d.%s_%d",(int)r.below(3),r.chance(1,3)?"x^y":"Name",i); if (hostile&&r.chance(1,5)) k+=r.chance(1,2)?"'s":" \"q\""; sch[k]=mkKey(k,hostile&&r.chance(1,3)?text(r,true):fmt("%d",i),ty[r.below(7)],"1:10",hostile&&r.chance(1,2)?"It's a \"quoted\" thing; "+text(r,true):fmt("Plain text %d_a^b.",i),r.chance(1,3),(K::VisibilityLevel)r.below(6),r.below(32),r.chance(1,2)?"units":""); }
	ConfigurationTable *t=S.open(":memory:",sch); ConfigurationKeyMap &M=t->mSchema; for (auto &p:sch) if (!M.count(p.first)) c.fail("dump:schema","declared key missing "+p.first); if (M.size()<sch.size()+4) c.fail("dump:schema","built-in keys missing");
	{ std::string sql=t->getDefaultSQL("prog","v1"); sqlite3 *d; sqlite3_open_v2(":memory:",&d,SQLITE_OPEN_READWRITE|SQLITE_OPEN_CREATE,NULL); char *e=0; if (sqlite3_exec(d,sql.c_str(),0,0,&e)!=SQLITE_OK) { c.fail("dump:sql","generated SQL is refused: "+std::string(e?e:"")); } else { std::map<std::string,std::string> got,want; sqlite3_stmt *s; sqlite3_prepare_v2(d,"SELECT KEYSTRING,VALUESTRING,STATIC,OPTIONAL,COMMENTS FROM CONFIG",-1,&s,0); while (sqlite3_step(s)==SQLITE_ROW) { std::string row; for (int i=1;i<5;i++) { const char *x=(const char*)sqlite3_column_text(s,i); row+=std::string(x?x:"(null)")+"\x01"; } got[(const char*)sqlite3_column_text(s,0)]=row; } sqlite3_finalize(s); for (auto &p:M) want[p.first]=p.second.getDefaultValue()+"\x01"+(p.second.isStatic()?"1":"0")+"\x01"+"0\x01"+(p.second.getType()==K::BOOLEAN?"1=enabled, 0=disabled - ":"")+p.second.getDescription()+(p.second.isStatic()?"  Static.":"")+"\x01"; if (got!=want) { std::string w; for (auto &p:want) if (got[p.first]!=p.second) { w=p.first+": "+quote(got[p.first])+" expected "+quote(p.second); break; } c.fail("dump:sqlrows",fmt("%zu rows for %zu keys; ",got.size(),want.size())+w); } } sqlite3_free(e); sqlite3_close(d); c.count("sql_dumps"); }
	{ std::string x=t->getTeX("prog","v1"); int sec=0; std::vector<std::string> got[4]; std::istringstream is(x); std::string want[4]; for (auto &p:M) { int s=0; switch (p.second.getVisibility()) { case K::CUSTOMERSITE: s=1; break; case K::CUSTOMER: case K::CUSTOMERTUNE: case K::CUSTOMERWARN: s=2; break; default: s=3; } want[s]+=esc("\t\\item \\texttt{"+p.first+"} -- "+p.second.getDescription()+"\n"); }
	  size_t a=x.find("\\begin{itemize}"); for (int s=1;s<4;s++) { size_t b=a==std::string::npos?a:x.find("\\end{itemize}",a); if (b==std::string::npos) { c.fail("dump:tex","list missing"); break; } std::string body=x.substr(a+16,b-a-16); if (body!=want[s]) { c.fail("dump:texlist",fmt("section %d: ",s)+quote(body)+" expected "+quote(want[s])); break; } a=x.find("\\begin{itemize}",b); (void)sec; } c.count("tex_dumps"); }
	// where a table exists already, what it holds is kept and only what it lacks is added
	{ sqlite3 *d; sqlite3_open_v2(":memory:",&d,SQLITE_OPEN_READWRITE|SQLITE_OPEN_CREATE,NULL); KV want; for (auto &p:M) want[p.first]=p.second.getDefaultValue(); if (sqlite3_exec(d,"CREATE TABLE CONFIG (KEYSTRING TEXT UNIQUE NOT NULL, VALUESTRING TEXT, STATIC INTEGER DEFAULT 0, OPTIONAL INTEGER DEFAULT 0, COMMENTS TEXT DEFAULT '')",0,0,0)!=SQLITE_OK) abort(); for (auto &p:M) if (r.chance(1,3)) { want[p.first]="mine"; char *q=sqlite3_mprintf("INSERT INTO CONFIG (KEYSTRING,VALUESTRING) VALUES (%Q,'mine')",p.first.c_str()); sqlite3_exec(d,q,0,0,0); sqlite3_free(q); } if (r.chance(1,2)) { want["Extra"]="more"; sqlite3_exec(d,"INSERT INTO CONFIG (KEYSTRING,VALUESTRING) VALUES ('Extra','more')",0,0,0); } std::string sql=t->getDefaultSQL("prog","v2"); for (int i=0;i<2;i++) if (sqlite3_exec(d,sql.c_str(),0,0,0)!=SQLITE_OK) c.fail("dump:sql","generated SQL is refused by an existing database"); KV g=rawAll(d); if (g!=want) { std::string w; for (auto &p:want) if (g[p.first]!=p.second) w=p.first+": "+quote(g[p.first])+" expected "+quote(p.second); c.fail("dump:sqlkept",fmt("applied to an existing database: %zu rows, expected %zu; ",g.size(),want.size())+w); } sqlite3_close(d); }
	// search and listing of stored values
	KV db; for (int i=0;i<12;i++) { std::string k=fmt("%s.%d",r.chance(1,2)?r.chance(1,4)?("Alpha.Beta."+std::string(r.range(1,150),'k')).c_str():"Alpha.Beta":"gamma",(int)r.below(6)), v=r.chance(1,4)?"":text(r,hostile); if (r.chance(1,3)) { auto q=M.begin(); std::advance(q,r.below(M.size())); k=q->first; if (r.chance(1,4)) v=q->second.getDefaultValue(); } if (v.find('\n')!=std::string::npos) v="x"; gHook=0; if (i==6) t->setUpdateHook(hookCb); if (!t->set(k,v)) { c.fail("dump:set","set refused"); return; } if (i>=6&&!gHook) c.fail("dump:hook","update hook not called for a change"); db[k]=v; }
	{ std::string pat=r.chance(1,4)?"":r.chance(1,6)?(r.chance(1,2)?"Log":"App"):r.chance(1,3)?"Beta":r.chance(1,2)?"gamma.3":hostile&&r.chance(1,2)?(r.chance(1,2)?"it's":"\"q"):"nothing"; if (r.chance(1,3)) { std::string z=r.chance(1,2)?M.begin()->first:r.chance(1,2)?"Alpha.Beta.2":db.begin()->first; size_t b=r.below(z.size()); pat=z.substr(b,r.range(1,8)); for (auto &ch:pat) if (ch=='%'||ch=='_') { pat="Beta"; break; } if (r.chance(1,2)) for (auto &ch:pat) if (isalpha((unsigned char)ch)&&r.chance(1,2)) ch^=32; } auto low=[](std::string z){ for (auto &ch:z) if (ch>='A'&&ch<='Z') ch+=32; return z; }; std::ostringstream os; t->find(pat,os); std::multiset<std::string> got,want; std::istringstream is(os.str()); std::string l; while (std::getline(is,l)) got.insert(l); for (auto &p:db) if (low(p.first).find(low(pat))!=std::string::npos) want.insert(p.first+" "+(p.second.empty()?"(disabled)":p.second)); if (got!=want) c.fail("dump:find",fmt("search for %s lists %zu lines, expected %zu: ",quote(pat).c_str(),got.size(),want.size())+quote(os.str())); c.count("searches"); }
	{ ConfigurationRecordMap m=t->getAllPairs(); KV g; for (auto &p:m) if (p.second.defined()) g[p.first]=p.second.value(); if (g!=db) c.fail("dump:pairs","listed pairs differ from what was stored"); }
	for (int j=0;j<4;j++) { std::string sn=r.chance(1,3)?"App1":r.chance(1,2)?"Log":"zzz"; auto mp=M.begin(); std::advance(mp,r.below(M.size())); const std::string &mk=mp->first, &md=mp->second.getDescription(); if (j==1) { size_t b=r.below(mk.size()); sn=mk.substr(b,r.range(1,6)); } else if (j==2) { std::string z=r.chance(1,4)?mp->second.getDefaultValue():r.chance(1,4)?mp->second.getUnits():md.substr(0,md.find(' ')); sn=z.substr(0,12); } else if (j==3) { static const char *od[]={"","%","_",".*","log","LOG","Log.Level",".","*","^"}; sn=od[r.below(10)]; } ConfigurationKeyMap g=t->getSimilarKeys(sn); size_t w=0; for (auto &p:M) if (p.first.find(sn)!=std::string::npos) { w++; if (!g.count(p.first)||g[p.first].getDefaultValue()!=p.second.getDefaultValue()) c.fail("dump:similar",p.first); } if (g.size()!=w) c.fail("dump:similar",fmt("%zu keys for %s, expected %zu",g.size(),quote(sn).c_str(),w)); }
	for (auto &p:M) { if (t->isStatic(p.first)!=p.second.isStatic()) c.fail("dump:static",p.first); if (!t->keyDefinedInSchema(p.first)) c.fail("dump:declared",p.first); } if (t->isStatic("no.such")||t->keyDefinedInSchema("no.such")) c.fail("dump:static","undeclared key");
	{ gCrossSeen.clear(); if (!t->crossCheck("a").empty()) c.fail("dump:cross","result without a callback"); t->setCrossCheckHook(crossCb); std::vector<std::string> v=t->crossCheck("key7"); if (v!=std::vector<std::string>{"warn key7","second"}||gCrossSeen!=std::vector<std::string>{"key7"}) c.fail("dump:cross","callback result"); }
	// descriptions
	for (auto &p:sch) { const K &k=p.second; std::ostringstream a,b; std::string cur=r.chance(1,3)?k.getDefaultValue():r.chance(1,3)?"":r.chance(1,2)?k.getDefaultValue()+(r.chance(1,2)?" ":"x"):r.chance(1,2)?k.getDefaultValue().substr(0,k.getDefaultValue().size()/2):"other"; K::printKey(k,cur,a); std::string w=k.getName()+" "+(cur.empty()?"(disabled)":cur)+(cur==k.getDefaultValue()?"     [default]":"")+"\n"; if (a.str()!=w) c.fail("dump:printkey",quote(a.str())+" expected "+quote(w));
		K::printDescription(k,b); std::string s=b.str(); auto need=[&](const std::string &x, bool yes){ size_t q=s.find(x); bool one=q!=std::string::npos; if (one!=yes) c.fail("dump:describe",(yes?"missing ":"unexpected ")+quote(x)+" in "+quote(s)); else if (one && s.find(x,q+1)!=std::string::npos) c.fail("dump:describe-twice",quote(x)+" twice in "+quote(s)); };
		need(" - description:      "+k.getDescription()+"\n",true); if (!hostile) { need(" - units:            units\n",k.getUnits().size()); need(" - type:             "+K::typeToString(k.getType())+"\n",true); need(" - default value:    "+k.getDefaultValue()+"\n",k.getDefaultValue().size()); need(fmt(" - static:           %d\n",k.isStatic()),true); need("unique across all nodes",k.getScope()&1); need("same across all nodes",k.getScope()&2); need("unique across all neighbors",k.getScope()&4); need("same across all neighbors",k.getScope()&8); need("specific to each individual node",k.getScope()&16); need("from 1 to 10\n",k.getType()==K::VALRANGE); need("0 = disabled\n",k.getType()==K::BOOLEAN); need("1 = enabled\n",k.getType()==K::BOOLEAN); need("valid val regex:  1:10\n",k.getType()==K::STRING); need("raw valid values: 1:10\n",k.getType()==K::PORT||k.getType()==K::IPADDRESS_OPT||k.getType()==K::FILEPATH); need("valid values:     1:10\n",k.getType()==K::CHOICE); if (!(k.getScope()&31)) need(" - scope:",false); } c.count("descriptions"); }
	if (hostile) for (int i=0;i<6;i++) { std::ostringstream b; K::printDescription(mkKey("c","d",K::CHOICE,i%2?"850,900,1800":"850|A,900|B,1800|C","x"),b); std::string s=b.str(); const char *w[2][3]={{"valid values:     850 = A\n","valid values:     900 = B\n","valid values:     1800 = C\n"},{"valid values:     850\n","valid values:     900\n","valid values:     1800\n"}}; for (int j=0;j<3;j++) if (s.find(w[i%2][j])==std::string::npos) c.fail(i%2?"dump:choices-plain":"dump:choices",quote(w[i%2][j])+" missing in "+quote(s)); }
	{ int n=r.range(1,60); std::string vv; std::vector<std::string> want; for (int i=0;i<n;i++) { std::string v=fmt("v%d-",i)+std::string(r.below(12),'y'), d=r.chance(1,2)?fmt("meaning %d ",i)+std::string(r.below(20),'z'):""; vv+=(i?",":"")+v+(d.size()?"|"+d:""); want.push_back(" - valid values:     "+v+(d.size()?" = "+d:"")+"\n"); } std::ostringstream o; K::printDescription(mkKey("c","v0-",K::CHOICE,vv,"x"),o); std::string s=o.str(), all; for (auto &w:want) all+=w; if (s.find(all)==std::string::npos) c.fail("dump:choices",fmt("%d choices described as ",n)+quote(s)); }
	{ double lo=r.range(-100,100), hi=lo+r.range(0,200); bool fl=r.chance(1,3); std::string a=fl?fmt("%.2f",lo+0.25):fmt("%d",(int)lo), b=fl?fmt("%.1f",hi+0.5):fmt("%d",(int)hi), vv=a+":"+b; if (r.chance(1,2)) vv+=fl?"(0.25)":"(5)"; std::ostringstream o; K::printDescription(mkKey("c",a,K::VALRANGE,vv,"x"),o); std::string g1,g2,g3, st=vv.find('(')==std::string::npos?"1":fl?"0.25":"5"; K::getMinMaxStepping(mkKey("c",a,K::VALRANGE,vv,"x"),g1,g2,g3); if (g1!=a||g2!=b||g3!=st) c.fail("dump:limits",quote(vv)+" taken apart as "+quote(g1)+" "+quote(g2)+" "+quote(g3)); std::string s=o.str(), w="valid values:     from "+a+" to "+b+"\n"; size_t q=s.find(w); if (q==std::string::npos||s.find("valid values",q+5)!=std::string::npos) c.fail("dump:range",quote(vv)+" described as "+quote(s)); }
	// every declared level and type has a description of its own
	std::set<std::string> names; for (int i=0;i<6;i++) names.insert(K::visibilityLevelToString((K::VisibilityLevel)i)); for (int i=0;i<=K::VALRANGE;i++) names.insert(K::typeToString((K::Type)i)); if (names.size()!=6+K::VALRANGE+1||names.count("UNKNOWN ERROR")) c.fail("dump:names","level or type names not distinct");
	c.coverHash(r.next()); vclockOff();
}
