// Contract models of the BLAS/LAPACK routines the library calls. Every call checks the documented
// argument rules and buffer extents, records the input it was given, and delivers arbitrary outputs
// (fresh symbolic values constrained by the contract), which are recorded too.
#pragma once
#include <vector>
#include <string>
struct KCall { std::string name; std::string opt; int m,n,k; bool query; std::vector<double> inA,inB,inC,outA,outB,outC; std::vector<int> ints; };
std::vector<KCall>& kcalls(); void kclear(); // kclear frees the recorder (call it at the end of a harness that checks for leaks)
extern "C" { extern int klapack_info; }   // value the factorization kernels report in info (0 = success)
