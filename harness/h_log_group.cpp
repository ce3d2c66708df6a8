#define LOG_GROUP LogGroup::SIP
#include "common.h"
#include "log_emit.h"
#line 5 "h_log_group.cpp"
void emitSip(int file, int lvl, const std::string &msg) { if (file==0) emitAlpha(lvl,msg); else if (file==1) emitBeta(lvl,msg); else emitGamma(lvl,msg); }
bool watchSip(int lvl) { switch (lvl) { case 3: return IS_WATCH_LEVEL(ERR); case 6: return IS_WATCH_LEVEL(INFO); default: return IS_WATCH_LEVEL(DEBUG); } }
void watchMsgSip(int kind, long n, const std::string &msg) { watchAlpha(kind,n,msg); }
