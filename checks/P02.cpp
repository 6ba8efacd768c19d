#define ORACLE 2
#include "../checks/core.h"
