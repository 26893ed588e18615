// The global configuration every program linked with the library has to supply.
#include "Configuration.h"
ConfigurationTable gConfig;
#include "google/coredumper.h"
// What the stand-in for google-coredumper was asked to do.
#include <string>
#include <vector>
std::vector<std::string> gCoreDumps;
void (*gCoreHook)(const char*);
extern "C" int WriteCoreDump(const char *file) { if (gCoreHook) gCoreHook(file); gCoreDumps.push_back(file); return 0; }
