// The stack trace printer as it is built with stack-trace support, or without it.
#include "../src/stack_trace.cpp"
extern "C" void vf_stack_trace() { Helper::stack_trace(); }
