/* the library under test as one unit, like the project's own exe/compile-c builds it. -I points to the working tree */
#include "sph-sp/main.c"
#include <string.h>
