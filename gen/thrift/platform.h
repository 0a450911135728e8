#ifndef VERIF_PLATFORM_H
#define VERIF_PLATFORM_H
#include <sys/stat.h>
#define MKDIR(x) mkdir(x, S_IRWXU | S_IRWXG | S_IRWXO)
#endif
