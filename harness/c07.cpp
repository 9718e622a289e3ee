// C07: sorting indices
#include "lib.hpp"
template<class T> static void sorted(const SparseMatrix<T>&A,const Csr<T>&a,const char*m){ wellFormed(A,a.r,a.c,m); CHECK(A.GetIndptr()==a.ptr,"row pointers unchanged"); const auto&x=A.GetIndices(); const auto&d=A.GetData(); for(int i=0;i<a.r;i++){ int s=a.ptr[i],e=a.ptr[i+1]; for(int j=s+1;j<e;j++) CHECK(x[j-1]<=x[j],"columns in order");
    // multiset of pairs: for every pair of the original row, equal occurrence counts
    for(int q=s;q<e;q++){ int na=0,nb=0; for(int j=s;j<e;j++){ na+=(a.idx[j]==a.idx[q]&&__sym_eq((double)a.dat[j],(double)a.dat[q]))?1:0; nb+=(x[j]==a.idx[q]&&__sym_eq((double)d[j],(double)a.dat[q]))?1:0; } CHECK(na==nb,"same pairs in the row"); } } }
H(sort){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),P(4),g); SparseMatrix<> A=mk(a); A.SortIndices(); sorted(A,a,"sorted"); eqRef(refOf(A),a.ref(),"same matrix"); auto b=csrOf(A); A.SortIndices(); sorted(A,b,"sorted again"); for(int k=0;k<A.nnz();k++) __sym_log_i("x",A.GetIndices()[k]); COVER("end"); }
H(sort_int){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<int>("a",r,c,P(3),P(4),g); SparseMatrix<int> A=mk(a); A.SortIndices(); sorted(A,a,"int sorted"); COVER("end"); }
H(bigrow){ Lcg g(P(0)); int c=P(1),n=P(2); Csr<double> a; a.r=2; a.c=c; a.ptr={0,n,n}; std::vector<int> all(c); for(int q=0;q<c;q++) all[q]=q; for(int k=0;k<n;k++){ int q=k+g.next(c-k); int t=all[k]; all[k]=all[q]; all[q]=t; a.idx.push_back(all[k]); a.dat.push_back(SR("v")); } SparseMatrix<> A=mk(a); A.SortIndices(); CHECK(A.GetIndptr()==a.ptr,"row pointers"); for(int k=1;k<n;k++) CHECK(A.GetIndices()[k-1]<A.GetIndices()[k],"columns in order"); std::vector<double> at(c,0.0); std::vector<int> has(c,0); for(int k=0;k<n;k++){ at[a.idx[k]]=a.dat[k]; has[a.idx[k]]=1; } for(int k=0;k<n;k++){ CHECK(has[A.GetIndices()[k]],"same columns"); CHECKEQ(A.GetData()[k],at[A.GetIndices()[k]],"same pairs"); } COVER("end"); }
//@ run sort 0 0..2 1..3 2 0 t=60
//@ run sort 0 1 3 3 0 t=100
//@ run sort 0 1 3 3 1 t=100
//@ run sort S0..3 5 9 4 1 t=40
//@ run sort S0..3 3 4 4 0 t=60
//@ run sort_int 0 2 2 2 0 t=60
//@ run bigrow S0..3 30,60 17,30 t=40
// structures that are almost special (see patRows)
//@ run sort 1000000..1000017 5 5,6 4 0..1 t=30
//@ run sort_int 1000000..1000017 5 5 4 0 t=30
// large shapes: concrete structure, symbolic values
//@ run sort 1..3 20,70 70 40 1 t=60
//@ run bigrow 1..2 300,1100 130,260 t=60
//@ run sort 4 130 140 20 1 t=60
//@ thorough sort 0 3 3 2 0 t=600
//@ thorough sort 0 1 4 4 1 t=600
//@ thorough sort 0 2 3 3 0 t=800
//@ thorough bigrow S10..40 100 20,90 t=60
//@ bounds fully symbolic rows of up to 3 entries (thorough 4), duplicates included, 2 rows of 2 (thorough 3)
//@ bounds seeded rows of up to 30 distinct columns (thorough 90), values symbolic; larger shapes (bigrow, sort): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside longer rows
