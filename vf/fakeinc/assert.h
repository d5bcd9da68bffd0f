#include <stddef.h>
#define assert(x) ((void)0)
