// R ranks of one program: hm_run(R,f) runs f(rank) on every rank to the end; deadlock (every rank waits for another one) is a violation.
#pragma once
void hm_run(int R,void(*f)(int)); int hm_rank(); int hm_size(); void hm_order(int o);
struct hypre_Solver_struct; double hm_digest(hypre_Solver_struct*); double hm_par(hypre_Solver_struct*,int); int hm_print(hypre_Solver_struct*);
