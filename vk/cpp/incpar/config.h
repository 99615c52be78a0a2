// as generated by CMake when <execution> is available: the solvers are built with C++17 parallel algorithms
#define HAS_EXECUTION
