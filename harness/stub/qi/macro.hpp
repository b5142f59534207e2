// Stand-in for libqi's macro header (not installed here).
#pragma once
#define QI_LIB_API(lib) __attribute__((visibility("default")))
