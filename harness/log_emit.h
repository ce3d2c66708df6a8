// emitters at every level, as seen from differently named source files (included with and without LOG_GROUP)
#define EMIT_ALL(lvl,msg) switch (lvl) { case 0: LOG(EMERG) << msg; break; case 1: LOG(ALERT) << msg; break; case 2: LOG(CRIT) << msg; break; case 3: LOG(ERR) << msg; break; \
	case 4: LOG(WARNING) << msg; break; case 5: LOG(NOTICE) << msg; break; case 6: LOG(INFO) << msg; break; case 7: LOG(DEBUG) << msg; break; }
#line 100 "alpha.cpp"
static void emitAlpha(int lvl, const std::string &msg) { EMIT_ALL(lvl,msg) }
#line 100 "beta.h"
static void emitBeta(int lvl, const std::string &msg) { EMIT_ALL(lvl,msg) }
#line 100 "a/very/long/path/to/some/source-file_42.cpp"
static void emitGamma(int lvl, const std::string &msg) { EMIT_ALL(lvl,msg) }
#line 12 "log_emit.h"
#line 300 "alpha.cpp"
static void watchAlpha(int kind, long n, const std::string &msg) { using namespace std; using namespace Utils; switch (kind) {
	case 0: WATCH("w="<<n<<msg) break; case 1: WATCHF("w=%ld%s\n",n,msg.c_str()) break; case 2: WATCHINFO("w="<<n<<msg) break; case 3: WATCHLEVEL(ERR,"w="<<n<<msg) break; case 4: WATCHLEVEL(INFO,"w="<<n<<msg) break; case 5: WATCHLEVEL(DEBUG,"w="<<n<<msg) break; } fflush(stdout); cout.flush(); }
#line 16 "log_emit.h"
