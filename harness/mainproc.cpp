// the worker program itself, its main() under another name
#define main worker_main
#include "main.cpp"
#undef main
int RunTest() { return 0; }
