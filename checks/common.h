// Shared by the check harnesses: the global objects every program using the library must define.
#ifndef CHECKS_COMMON_H
#define CHECKS_COMMON_H
#include "pbt.h"
#include "env.h"
#endif
