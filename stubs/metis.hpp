// Contract model of the graph partitioner: checks what it is given, records it, and answers with any assignment of parts.
#pragma once
#include <vector>
struct MCall { int n,ncon,nparts,contig,numbering; bool weights,parts_weights,vertex_weights; double ub; std::vector<int> xadj,adj,wgt,part; };
std::vector<MCall>& mcalls(); void mclear();
extern "C" { extern int kmetis_fail, kmetis_free; }  // the partitioner refuses its input and leaves the answer untouched; vertices from kmetis_free on get fixed, scattered parts
