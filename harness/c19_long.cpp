// C19 over streams past 2^16 samples (not in the memcheck build).
#define VERIF_C19_LONG 1
#include "c19_serial.cpp"
