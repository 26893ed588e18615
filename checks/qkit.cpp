#include "qkit.h"
namespace qk { World *W; int World::idOf(void *p) { if (!p) return -1; for (size_t i=all.size();i--;) if (all[i].p==p) return i; return -2; } }
