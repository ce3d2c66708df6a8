// Stand-in for google-coredumper; the harness records the request.
#ifndef STUB_COREDUMPER_H
#define STUB_COREDUMPER_H
extern "C" int WriteCoreDump(const char *file_name);
#endif
