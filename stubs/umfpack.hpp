// Contract model of the direct solver's kernel: checks arguments and handle life times, records each solve, answers arbitrarily.
#pragma once
#include <vector>
struct UCall { int n; bool transposed; std::vector<double> A; std::vector<double> b,x; };   // A dense row-major: the matrix the arrays describe in compressed column form
std::vector<UCall>& ucalls(); int ulive(); void uclear();   // ulive: factorizations not released yet
extern "C" { extern int kumf_symbolic,kumf_numeric,kumf_solve; }  // status the kernel reports
