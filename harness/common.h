#ifndef HCOMMON_H
#define HCOMMON_H
#include "rt.h"
#include "Configuration.h"
#include "Logger.h"
#include <unistd.h>
#endif
