// C22: matrices in text formats
#include "lib.hpp"
#include "parser.hpp"
#include "files.hpp"
typedef std::string S;
template<class T> static T val(const char*n); template<> double val<double>(const char*n){ return oddReal(n); } template<> int val<int>(const char*n){ return SI(n,-1000000,1000000); }
// the matrix the file's entries describe, in the given or the smallest containing size
struct Ent { int i,j; double v; };
static void sameEntries(const Ref&a,const Ref&b,const char*m){ CHECK(a.r==b.r&&a.c==b.c,m); for(size_t k=0;k<a.v.size();k++) CHECK(sameReal(b.v[k],a.v[k]),m); }
static Ref build(const std::vector<Ent>&e,int r=0,int c=0){ for(auto&x:e){ if(x.i>=r) r=x.i+1; if(x.j>=c) c=x.j+1; } Ref R(r,c); for(auto&x:e) R.at(x.i,x.j)+=x.v; return R; }
template<class T> static std::vector<Ent> ents(const Csr<T>&a){ std::vector<Ent> e; for(int i=0;i<a.r;i++) for(int k=a.ptr[i];k<a.ptr[i+1];k++) e.push_back({i,conc(a.idx[k]),(double)a.dat[k]}); return e; }
template<class T> static Csr<T> gen(int kind,Lcg&g){ auto a=genCsr<T>("a",P(1),P(2),P(3),kind,g); for(auto&x:a.dat) x=val<T>("av"); return a; }
template<class T> static Csr<T> genSym(Lcg&g,int diag){ int n=P(1); std::vector<std::vector<std::pair<int,T>>> rows(n); for(int i=0;i<n;i++) for(int j=i;j<n;j++){ bool in= i==j? (diag==2?g.next(2):diag): (P(0)==0?CI("edge",0,1):g.next(2)); if(!in) continue; T v=val<T>("sv"); rows[i].push_back({j,v}); if(i!=j) rows[j].push_back({i,v}); } Csr<T> a; a.r=a.c=n; a.ptr.push_back(0); for(auto&r:rows){ if(g.next(2)) std::reverse(r.begin(),r.end()); for(auto&p:r){ a.idx.push_back(p.first); a.dat.push_back(p.second); } a.ptr.push_back((int)a.idx.size()); } return a; }
template<class T> static void coo(){ Lcg g(P(0)*7+1); { TmpFile f("coo"); auto a=gen<T>(DISTINCT,g); const SparseMatrix<T> A=mk(a); WriteCooList(A,f); sameCsr(A,a,"matrix unchanged"); auto e=ents(a); auto B=ReadCooList<T>(f); Ref R=build(e); wellFormed(B,R.r,R.c,"well formed"); sameEntries(refOf(B),R,"coordinate list round trip"); CHECK(B.nnz()==A.nnz(),"no entry invented or lost");
  auto s=genSym<T>(g,2); const SparseMatrix<T> Sy=mk(s); WriteCooList(Sy,f,true); auto lines=ReadText(f); size_t up=0; for(int i=0;i<s.r;i++) for(int k=s.ptr[i];k<s.ptr[i+1];k++) up+=s.idx[k]>=i; CHECK(lines.size()==3*up,"each pair is stored once"); auto D=ReadCooList<T>(f,true); Ref Q=build(ents(s)); sameEntries(refOf(D),Q,"symmetric coordinate list round trip"); CHECK(D.nnz()==Sy.nnz(),"no entry invented or lost"); WriteCooList(Sy,f,false); sameEntries(refOf(ReadCooList<T>(f)),Q,"symmetric matrix written in full"); } COVER("end"); }
H(coo_d){ coo<double>(); } H(coo_i){ coo<int>(); }
H(adj){ Lcg g(P(0)*11+3); { TmpFile f("adj"); auto a=gen<double>(DISTINCT,g); const SparseMatrix<double> A=mk(a); WriteAdjList(A,f); sameCsr(A,a,"matrix unchanged"); auto e=ents(a); for(auto&x:e) x.v=1.0; auto B=ReadAdjList(f); Ref R=build(e); wellFormed(B,R.r,R.c,"well formed"); sameEntries(refOf(B),R,"adjacency list round trip"); CHECK(B.nnz()==A.nnz(),"no entry invented or lost"); auto Bi=ReadAdjList<int>(f); sameEntries(refOf(Bi),R,"adjacency list of integers");
  auto s=genSym<double>(g,P(3)%3); WriteAdjList(mk(s),f,true); size_t up=0; for(int i=0;i<s.r;i++) for(int k=s.ptr[i];k<s.ptr[i+1];k++) up+=s.idx[k]>=i; CHECK(ReadText(f).size()==2*up,"each pair is stored once"); auto es=ents(s); for(auto&x:es) x.v=1.0; sameEntries(refOf(ReadAdjList(f,true)),build(es),"symmetric adjacency list round trip"); WriteAdjList(mk(s),f); sameEntries(refOf(ReadAdjList(f)),build(es),"symmetric matrix written in full"); } COVER("end"); }
H(table){ Lcg g(P(0)*13+5); { TmpFile f("table"); auto a=gen<int>(DUP,g); const SparseMatrix<int> A=mk(a); WriteTable(A,f); sameCsr(A,a,"matrix unchanged"); auto B=ReadTable(f); int c=0; for(auto&x:ents(a)) if(x.j>=c) c=x.j+1; wellFormed(B,a.r,c,"table dimensions"); CHECK(B.GetIndptr()==a.ptr,"rows of the table"); for(size_t k=0;k<a.idx.size();k++){ CHECK(B.GetIndices()[k]==a.idx[k],"entries of the table in order"); CHECK(B.GetData()[k]==1,"unit values"); } auto D=ReadTable<double>(f); CHECK(D.nnz()==B.nnz()&&D.GetIndices()==B.GetIndices(),"table of doubles"); } COVER("end"); }
H(csr){ Lcg g(P(0)*19+7); { TmpFile f("csr"); auto a=gen<double>(DUP,g); const SparseMatrix<double> A=mk(a); WriteCSR(A,f); sameCsr(A,a,"matrix unchanged"); auto B=ReadCSR(f); CHECK(B.Rows()==a.r&&B.Cols()==a.c&&B.GetIndptr()==a.ptr,"CSR structure"); for(size_t k=0;k<a.idx.size();k++){ CHECK(B.GetIndices()[k]==a.idx[k],"CSR columns"); CHECK(sameReal(a.dat[k],B.GetData()[k]),"CSR values"); } CHECK(B.nnz()==A.nnz(),"CSR entries"); auto b=gen<int>(DUP,g); WriteCSR(mk(b),f); sameCsr(ReadCSR<int>(f),b,"integer CSR round trip"); } COVER("end"); }
H(mtx){ Lcg g(P(0)*23+9); { TmpFile f("mtx"); auto a=gen<double>(DISTINCT,g); const SparseMatrix<double> A=mk(a); WriteMTX(A,f); sameCsr(A,a,"matrix unchanged"); auto B=ReadMTX(f); Ref R=build(ents(a),a.r,a.c); wellFormed(B,a.r,a.c,"Matrix Market dimensions"); sameEntries(refOf(B),R,"Matrix Market round trip"); CHECK(B.nnz()==A.nnz(),"no entry invented or lost"); auto b=gen<int>(DISTINCT,g); WriteMTX(mk(b),f); sameEntries(refOf(ReadMTX<int>(f)),build(ents(b),b.r,b.c),"integer Matrix Market round trip"); } COVER("end"); }
// hand-written files: any order, repeated entries, comments, symmetric headers, blank space
static S num(int v){ std::stringstream s; s<<v; return s.str(); } static S num(double v){ std::stringstream s; s.precision(17); s<<v; return s.str(); }
H(hand){ int n=P(1),k=P(2),kind=P(3); { TmpFile f("hand"); S sep=kind%2?"\t":" ",t; std::vector<Ent> e; bool sym=kind&2; for(int q=0;q<k;q++){ int i=CI("i",0,n-1),j=CI("j",0,n-1); double v=oddReal("v"); e.push_back({i,j,v}); } auto full=[&](bool ones,int dr,int dc){ std::vector<Ent> x; for(auto&y:e){ double v=ones?1.0:y.v; x.push_back({y.i,y.j,v}); if(sym&&y.i!=y.j) x.push_back({y.j,y.i,v}); } return build(x,dr,dc); };
  S body; for(auto&x:e) body+=num(x.i)+sep+num(x.j)+sep+num(x.v)+"\n"; putFile(f,body); sameEntries(refOf(ReadCooList(f,sym)),full(false,0,0),"hand-written coordinate list");
  S pat; for(auto&x:e) pat+=num(x.i)+sep+num(x.j)+"\n"; putFile(f,pat); sameEntries(refOf(ReadAdjList(f,sym)),full(true,0,0),"hand-written adjacency list");
  S b1,p1; for(auto&x:e){ b1+=num(x.i+1)+sep+num(x.j+1)+sep+num(x.v)+"\n"; p1+=num(x.i+1)+sep+num(x.j+1)+"\n"; } S head=S("%%MatrixMarket matrix coordinate real ")+(sym?"symmetric":"general")+"\n"; if(kind&4) head+="% a comment\n%\n%another one\n"; S size=num(n)+sep+num(n+(sym?0:1))+sep+num(k)+"\n"; putFile(f,head+size+b1); sameEntries(refOf(ReadMTX(f)),full(false,n,n+(sym?0:1)),"hand-written Matrix Market file"); if(!sym){ putFile(f,size+b1); sameEntries(refOf(ReadMTX(f)),full(false,n,n+1),"Matrix Market without comments"); } putFile(f,head+size+p1); sameEntries(refOf(ReadMTXList(f)),full(true,n,n+(sym?0:1)),"hand-written Matrix Market pattern"); } COVER("end"); }
H(graph){ int n=P(1),k=P(2); { TmpFile f("graph"); S t; std::vector<Ent> e; for(int q=0;q<k;q++){ int i=CI("i",0,n-1),j=CI("j",0,n-1); t+=num(i)+" "+num(j)+"\n"; if(i<j){ e.push_back({i,i,1.0}); e.push_back({j,j,1.0}); e.push_back({i,j,-1.0}); e.push_back({j,i,-1.0}); } } putFile(f,t); auto L=ReadGraphList(f); sameEntries(refOf(L),build(e),"graph Laplacian of the edges listed once"); } COVER("end"); }
H(handtab){ { TmpFile f("ht"); putFile(f,"0 2  4\n\n3\n 1\t1 \n"); auto A=ReadTable(f); CHECK(A.Rows()==4&&A.Cols()==5&&A.nnz()==6,"dimensions"); std::vector<int> p{0,3,3,4,6},x{0,2,4,3,1,1}; CHECK(A.GetIndptr()==p&&A.GetIndices()==x,"rows, empty rows and repeated entries"); putFile(f,"0 1\n2"); auto B=ReadTable(f); CHECK(B.Rows()==2&&B.Cols()==3&&B.nnz()==3,"last line without end"); putFile(f,""); auto C=ReadTable(f); CHECK(C.Rows()==0&&C.Cols()==0&&C.nnz()==0,"empty table"); putFile(f,"\n\n"); auto D=ReadTable(f); CHECK(D.Rows()==2&&D.Cols()==0&&D.nnz()==0,"table of empty rows"); putFile(f,"2 3\n0 1 3\n2 0 1\n1.5 -2 1e-1\n"); auto E=ReadCSR(f); CHECK(E.Rows()==2&&E.Cols()==3&&E.GetData()[2]==0.1&&E.GetIndices()[0]==2,"hand-written CSR"); } COVER("end"); }
H(noopen){ { const S bad="/nonexistent-directory/file"; SparseMatrix<double> A(2); SparseMatrix<int> I(2); THROWS(ReadCooList(bad),"coordinate list"); THROWS(ReadAdjList(bad),"adjacency list"); THROWS(ReadGraphList(bad),"graph list"); THROWS(ReadTable(bad),"table"); THROWS(ReadCSR(bad),"CSR"); THROWS(ReadMTX(bad),"Matrix Market"); THROWS(ReadMTXList(bad),"Matrix Market list"); THROWS(WriteCooList(A,bad),"coordinate list"); THROWS(WriteAdjList(A,bad),"adjacency list"); THROWS(WriteTable(I,bad),"table"); THROWS(WriteCSR(A,bad),"CSR"); THROWS(WriteMTX(A,bad),"Matrix Market");
  TmpFile f("bad"); for(auto t:{"","2 2","2 2\n0 1","2 2\n0 1 2\n0","2 2\n0 1 2\n0 1\n1.5","x 2\n0 0 0","1 1\n0 -1"}){ putFile(f,t); REFUSED(ReadCSR(f),"truncated or malformed CSR"); } for(auto t:{"","%%MatrixMarket matrix coordinate real general\n","%c\n2 2\n","%c\nx 2 1\n"}){ putFile(f,t); REFUSED(ReadMTX(f),"Matrix Market without sizes"); REFUSED(ReadMTXList(f),"Matrix Market list without sizes"); } for(auto t:{"2 2 1\n3 1 1.0\n","2 2 1\n1 3 1.0\n","2 2 1\n0 1 1.0\n","2 2 1\n1 0 1.0\n"}){ putFile(f,t); REFUSED(ReadMTX(f),"Matrix Market entry outside the sizes"); REFUSED(ReadMTXList(f),"Matrix Market entry outside the sizes"); } for(auto t:{"-1 0 1\n","0 -1 1\n"}){ putFile(f,t); REFUSED(ReadCooList(f),"negative index"); REFUSED(ReadAdjList(f),"negative index"); } } COVER("end"); }
//@ run coo_d 0 2 2 1 t=60
//@ run coo_d 1..5 3 4 3 t=60
//@ run coo_i 0 2 2 1 t=60
//@ run coo_i 1..3 3 3 2 t=60
//@ run adj 0 2 2 1 t=60
//@ run adj 1..6 3 4 1..3 t=60
//@ run table 0 2 3 2 t=60
//@ run table 1..4 4 3 3 t=60
//@ run csr 0 2 2 1 t=60
//@ run csr 1..4 3 4 3 t=60
//@ run mtx 0 2 2 1 t=60
//@ run mtx 1..5 4 3 3 t=60
//@ run hand 0 2 0..2 0..7 t=60
//@ run hand 0 3 2 0,7 t=60
//@ run graph 0 2..3 0..3 t=60
//@ run handtab 0 t=60
//@ run noopen 0 t=60
// large shapes: concrete structure, symbolic values
//@ run coo_d 3 16,32 32,16 8 t=60
//@ run table 3 16,32 32 8 t=60
//@ run csr 4 16,64 32 8 t=60
//@ run mtx 4 32 16,32 8 t=60
//@ run coo_d 1..2 20,40 33,12 9 t=60
//@ run coo_i 1..2 33 20 9 t=60
//@ run adj 1..3 25 30 9 t=60
//@ run table 1..2 20,40 33 9 t=60
//@ run csr 1..3 20,40 33 9 t=60
//@ run mtx 1..3 25 20,33 9 t=60
//@ thorough coo_d 6..15 6 5 4 t=200
//@ thorough coo_d 0 2 3 2 t=600
//@ thorough adj 7..16 6 5 0..2 t=200
//@ thorough csr 5..12 6 5 5 t=200
//@ thorough mtx 6..12 6 5 4 t=200
//@ thorough hand 0 3 3 0..7 t=600
//@ thorough graph 0 3 4 t=300
//@ bounds every matrix of up to 2x2 with one entry per row (thorough 2x3 with two), seeded structures up to 4x4 (thorough 6x5) with symbolic values; hand-written files of up to two entries (thorough three) in any order with all positions; truncated and malformed headers; larger shapes (adj, coo_d, coo_i, csr, mtx, table): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume streams and files are a model: text written is text read, numbers in decimal are exact from 15 digits on and arbitrary below
//@ outside files whose values lie within rounding of the largest or smallest normal double
