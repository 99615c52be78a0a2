// stand-in for the file CMake generates: neither C++17 <execution> nor OpenMP => the library's own sequential for_each
