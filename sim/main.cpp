#include "sim.h"
extern "C" char __data_start, _end;
int main(int argc, char** argv) { return sim_main(argc, argv, &__data_start, &_end); }
