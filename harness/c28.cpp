// C28: graph partitioning against a contract model of the partitioner
#include "lib.hpp"
#include "partition.hpp"
#include "metis.hpp"
static int absInt(double x){ return (int)std::fabs(x); }
template<class T> static void graphIs(const Csr<T>&a,const std::vector<int>&xadj,const std::vector<int>&adj,const std::vector<int>&wgt,bool weighted,const char*m){ CHECK((int)xadj.size()==a.r+1,m); for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++){ int want=0,have=0; int ww=0,hw=0; for(int k=a.ptr[i];k<a.ptr[i+1];k++){ bool h=a.idx[k]==j&&i!=j; want+=h?1:0; ww+=h?(weighted?absInt((double)a.dat[k]):1):0; } for(int k=conc(xadj[i]);k<conc(xadj[i+1]);k++){ bool h=adj[k]==j; have+=h?1:0; hw+=h?wgt[k]:0; } CHECK(want==have,m); CHECK(ww==hw,m); } }
static void valid(const std::vector<int>&p,int n,int k,const char*m){ CHECK((int)p.size()==n,m); int mx=-1; for(int i=0;i<n;i++){ CHECK(p[i]>=0&&p[i]<k,m); if(p[i]>mx) mx=p[i]; } for(int q=0;q<k;q++){ bool used=false; for(int i=0;i<n;i++) used|=p[i]==q; CHECK(used||q>mx,m); } }
static void groups(const std::vector<int>&p,const std::vector<int>&o,const char*m){ for(size_t i=0;i<p.size();i++) for(size_t j=0;j<i;j++) CHECK((p[i]==p[j])==(o[i]==o[j]),m); }
template<class T> static void one(const Csr<T>&a,int k,int contig,int weighted,double ub,bool defaults){ SparseMatrix<T> A=mk(a); size_t from=mcalls().size(); std::vector<int> p=defaults?(k==2&&!weighted?Partition(A):Partition(A,k)):Partition(A,k,ub,contig!=0,weighted!=0); valid(p,a.r,k,"a valid partition without gaps"); if(k<2){ for(int x:p) CHECK(x==0,"one part"); } else { CHECK(mcalls().size()==from+1,"partitioned once"); const MCall&c=mcalls()[from]; CHECK(c.n==a.r&&c.nparts==k,"every vertex and the requested number of parts"); groups(p,c.part,"the partitioner's groups are kept"); graphIs(a,c.xadj,c.adj,c.wgt,!defaults&&weighted,"the graph is the off-diagonal pattern"); if(!defaults){ CHECK((c.contig!=0)==(contig!=0),"contiguity as requested"); CHECKEQ(c.ub,(double)(float)ub,"balance as requested"); } CHECK(!c.parts_weights&&!c.vertex_weights,"vertices and parts are not weighted"); } sameCsr(A,a,"graph unchanged"); }
// any pattern over int values: symbolic columns and values
H(graph){ Lcg g(P(0)); int n=P(1); if(n>8) kmetis_free=2; auto a=genCsr<int>("a",n,n,P(2),DISTINCT,g); if(n>1) for(auto&v:a.dat) v=g.next(13)-6; one(a,P(3),P(4),P(5),P(4)?1.0:1.5,false); mclear(); COVER("end"); }
// double values: concrete, fractional and negative
H(reals){ Lcg g(P(0)); int n=P(1); Csr<double> a; a.r=a.c=n; a.ptr.push_back(0); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) if(g.next(3)){ a.idx.push_back(j); a.dat.push_back((g.next(41)-20)/4.0); } a.ptr.push_back(a.idx.size()); } if(P(4)==0) one(a,P(2),P(3),1,1.25,false); else if(P(4)==1) one(a,P(2),P(3),0,1.0,false); else one(a,P(2),1,0,1.0,true); mclear(); COVER("end"); }
H(refused_input){ int n=P(1); kmetis_fail=1; Lcg g(P(0)); auto a=rndCsr<double>("a",n,n,2,DISTINCT,g); SparseMatrix<double> A=mk(a); auto p=Partition(A,P(2)); valid(p,n,P(2),"a valid partition even if the partitioner gives up"); mclear(); COVER("end"); }
H(adjacency){ Lcg g(P(0)); int n=P(1),w=P(3); auto a=genCsr<int>("a",n,n,P(2),DUP,g); if(n>2) for(auto&v:a.dat) v=g.next(13)-6; SparseMatrix<int> A=mk(a); auto t=MakeAdjacencyInfo<int,int>(A,w!=0); graphIs(a,std::get<0>(t),std::get<1>(t),std::get<2>(t),w,"adjacency"); CHECK(std::get<1>(t).size()==std::get<2>(t).size()&&std::get<0>(t)[n]==(int)std::get<1>(t).size(),"one weight per edge"); auto u=MakeAdjacencyInfo<int,long>(A); CHECK(std::get<1>(u).size()==std::get<1>(t).size(),"other index types"); for(long x:std::get<2>(u)) CHECK(x==1,"unweighted by default"); sameCsr(A,a,"graph unchanged"); COVER("end"); }
H(remove_empty){ int n=P(1),k=P(2); std::vector<int> p,o; for(int i=0;i<n;i++) p.push_back(n>3?CI("p",0,k-1):SI("p",0,k-1)); o=p; RemoveEmpty(p); valid(p,n,k,"no gaps left"); groups(p,o,"groups are kept"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(__sym_fork(o[i]<o[j])) CHECK(p[i]<p[j],"order of the parts is kept"); COVER("end"); }
H(remove_big){ int n=P(1),k=P(2); Lcg g(P(0)); std::vector<int> p,o; for(int i=0;i<n;i++){ int x=g.next(k); if(x%3==P(0)%3) x=k-1; p.push_back(x); } p[g.next(n)]=CI("p",n>50?k-3:0,k-1); p[g.next(n)]=CI("q",n>50?k-2:0,k-1); o=p; RemoveEmpty(p); valid(p,n,k,"no gaps left"); groups(p,o,"groups are kept"); COVER("end"); }
H(invalid){ Lcg g(1); auto a=rndCsr<double>("a",3,3,2,DISTINCT,g); SparseMatrix<double> A=mk(a),B(2,3),C(3,2); REFUSED(Partition(A,0),"no parts"); REFUSED(Partition(A,-1),"negative number of parts"); REFUSED(Partition(A,4),"more parts than vertices"); REFUSED(Partition(B,2),"not square"); REFUSED(Partition(C,1),"not square"); __sym_leak_ok(); mclear(); COVER("end"); }
//@ inc modules/partition/include
//@ link metis
//@ run graph 0 1 1 1 0 0..1 t=60
//@ run graph 0 2 2 1..2 0..1 0..1 t=60
//@ run graph 0 3 1 2..3 1 0..1 t=60
//@ run graph S0..5 4 4 3..4 0..1 0..1 t=60
//@ run graph S6..7 5 3 3 0..1 1 t=60
//@ run reals S0..3 3..4 1..3 0..1 0..2 t=60
//@ run refused_input S0..1 3..4 2..3 t=60
//@ run adjacency 0 1 2 0..1 t=60
//@ run adjacency 0 3 1 0..1 t=60
//@ run adjacency S0..5 5..7 6 0..1 t=60
//@ run remove_empty 0 1..4 1..4 t=60
//@ run remove_big S0..5 9,23 5,14 t=60
//@ run adjacency S8..9 16 12 0..1 t=60
//@ run invalid 0 t=60
// large shapes: concrete structure, symbolic values
//@ run adjacency S10..13 40,70 30 0..1 t=60
//@ run remove_big S6..9 100,250 17,130 t=60
//@ run graph S8..9 24 40 1,7 0..1 0..1 t=60
//@ thorough graph 0 3 2 2..3 0..1 0..1 t=800
//@ thorough graph S10..30 6 5 4..6 1 1 t=400
//@ thorough remove_empty 0 5..6 2..6 t=400
//@ bounds graphs of up to 2 vertices (2 entries per row) and 3 vertices (1 entry per row) with symbolic structure and integer values, seeded graphs up to 5 vertices (thorough 6), 1 to 4 parts (thorough 6), every answer of the partitioner; adjacency with duplicate entries; renumbering of up to 4 vertices and 4 parts (thorough 6); larger shapes (adjacency, graph, remove_big): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume the partitioner answers with part numbers below the requested number or gives up leaving its output alone
//@ outside the quality of the partition; contiguity
