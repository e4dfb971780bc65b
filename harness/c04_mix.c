/* Functions, variables, structures, host functions and globals in one program, against the reference interpreter. */
#include "vt_prog.h"
static const int kinds[] = {K_LISTN, K_VECN, K_HOST, K_APPLY, K_REST, K_SELF, K_GLOB, K_BOX, K_ADD, K_SETQ, K_SCOPE, K_LAMBDA, K_CALL, K_WHILE};
/* @q configs=default,no-optimize,inference max=60 | every program of at most 1 operator (list vector host-call apply rest recursion global composite + setq scope lambda call while), each operand any of 4; inputs any 64-bit Integers */
void h_mix_one(void) { vt_host = 1; vt_program(kinds, 14, 1, 1, 2, 3, -1); }
/* @q configs=default,no-optimize max=100 | every program of at most 2 such operators, operands taken in turn */
void h_mix_two(void) { vt_host = 1; vt_program(kinds, 14, 2, 0, 2, 3, -1); }
static const int fewer[] = {K_HOST, K_APPLY, K_SELF, K_GLOB, K_SETQ, K_LAMBDA, K_SCOPE};
static void three(int root) { vt_host = 1; vt_program(fewer, 7, 3, 0, 2, 3, root); }
/* @q configs=default max=200 tmax=600 tconfigs=default,no-optimize | every program of 3 operators (host-call apply recursion global setq lambda scope) with a recursion at the root */
void h_mix_self(void) { three(K_SELF); }
/* @q configs=default max=200 tmax=600 tconfigs=default,no-optimize | the same with a host call or a closure at the root */
void h_mix_host(void) { int r = vt_pick(2) ? K_HOST : K_LAMBDA; three(r); }
/* @q configs=default max=200 tmax=600 tconfigs=default,no-optimize | the same with an apply at the root */
void h_mix_apply(void) { three(K_APPLY); }
/* @q configs=default max=200 tmax=600 tconfigs=default,no-optimize | the same with a global variable at the root */
void h_mix_global(void) { three(K_GLOB); }
/* @q configs=default max=200 tmax=600 tconfigs=default,no-optimize | the same with a scope at the root */
void h_mix_scope(void) { three(K_SCOPE); }
