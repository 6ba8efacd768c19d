#define ORACLE 1
#include "../checks/core.h"
