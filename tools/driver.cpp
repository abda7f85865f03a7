// Translation unit that pulls in the whole library and the application.
// Template instantiations the rules need are in spec/inst.h (each one droppable).
#if __has_include("main.cpp")
#include "main.cpp"
#else
#include "TQMesh.h"
#include "TQMeshApp.h"
#endif
#if __has_include("size_function.cpp")
#include "size_function.cpp"
#endif
