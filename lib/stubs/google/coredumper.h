// Stand-in for google-coredumper, which is not installed: records the request, writes nothing.
#ifndef VERIF_COREDUMPER_H
#define VERIF_COREDUMPER_H
extern "C" int WriteCoreDump(const char *file);
#endif
