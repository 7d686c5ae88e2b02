#define C30_B
#include "c30_p.c"
VP_HARNESS(b_round) { if (nd_bool()) h_round_signed(); else h_round_unsigned(); }
VP_MAIN(b_round)
