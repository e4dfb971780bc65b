/* Closures and captured variables: every small program against a reference interpreter with shared cells. */
#include "vt_prog.h"
static const int kinds[] = {K_ADD, K_SETQ, K_SCOPE, K_LAMBDA, K_CALL, K_DEFUN, K_LETFN, K_CELL, K_WHILE, K_IF};
/* @q configs=default,no-optimize,inference tconfigs=default,no-optimize,portable,inference max=60 | every program of at most 1 operator (+ setq scope lambda call defun letfn cell while if), each operand any of 4 (variables, input, literal), two variables in scope; inputs any 64-bit Integers; loops of 0 to 2 rounds */
void h_one(void) { vt_program(kinds, 10, 1, 1, 2, 3, -1); }
/* @q configs=default,no-optimize max=60 | every program of at most 2 such operators, operands taken in turn from variables, input and literal; inputs any 64-bit Integers */
void h_two(void) { vt_program(kinds, 10, 2, 0, 2, 3, -1); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with add at the root, operands taken in turn */
void h_three_add(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_ADD); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with setq at the root, operands taken in turn */
void h_three_setq(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_SETQ); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with scope at the root, operands taken in turn */
void h_three_scope(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_SCOPE); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with lambda at the root, operands taken in turn */
void h_three_lambda(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_LAMBDA); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with call at the root, operands taken in turn */
void h_three_call(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_CALL); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with defun at the root, operands taken in turn */
void h_three_defun(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_DEFUN); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with letfn at the root, operands taken in turn */
void h_three_letfn(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_LETFN); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with cell at the root, operands taken in turn */
void h_three_cell(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_CELL); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with add at the root, operands taken in turn */
void h_four_add(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_ADD); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with setq at the root, operands taken in turn */
void h_four_setq(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_SETQ); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with scope at the root, operands taken in turn */
void h_four_scope(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_SCOPE); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with lambda at the root, operands taken in turn */
void h_four_lambda(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_LAMBDA); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with call at the root, operands taken in turn */
void h_four_call(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_CALL); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with defun at the root, operands taken in turn */
void h_four_defun(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_DEFUN); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with letfn at the root, operands taken in turn */
void h_four_letfn(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_LETFN); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with cell at the root, operands taken in turn */
void h_four_cell(void) { vt_program(kinds, 8, 4, 0, 1, 3, K_CELL); }
