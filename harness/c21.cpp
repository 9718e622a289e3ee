// C21: vectors and binary matrices in files
#include "lib.hpp"
#include "parser.hpp"
#include "files.hpp"
static std::vector<double> odd(int n){ std::vector<double> v; for(int i=0;i<n;i++) v.push_back(oddReal("v")); return v; }
H(text){ int n=P(1); { TmpFile f("text"); if(P(2)) putFile(f,"9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9\n"); auto v=odd(n); if(P(3)==0) WriteText(v,f); else { const Vector<double> x=vec(v); WriteText(x,f); eqVec(x,v,"vector unchanged"); } auto r=ReadText(f); CHECK((int)r.size()==n,"as many values as written"); for(int i=0;i<n;i++) CHECK(sameReal(v[i],r[i]),"same values in order"); auto r2=ReadText<double>(f); CHECK((int)r2.size()==n,"reading again gives the same"); } COVER("end"); }
H(itext){ int n=P(1); { TmpFile f("text"); std::vector<int> v; for(int i=0;i<n;i++) v.push_back(SI("v",-2000000000,2000000000)); WriteText(v,f); auto r=ReadText<int>(f); CHECK((int)r.size()==n,"as many values as written"); for(int i=0;i<n;i++) CHECK(r[i]==v[i],"same integers in order"); const Vector<int> x=vec(v); WriteText(x,f); auto q=ReadText<int>(f); CHECK((int)q.size()==n,"as many values as written"); for(int i=0;i<n;i++) CHECK(q[i]==v[i],"same integers in order"); } COVER("end"); }
static const double special[]={0.0,-0.0,1.0/3.0,1e-300,-1e300,123456789.123456789,6.02214076e23,-1.1e308,3.3e-307,1e-20,3.0,1234567890123456.0};
H(special_text){ { TmpFile f("text"); std::vector<double> v(special,special+12); WriteText(v,f); auto r=ReadText(f); CHECK(r.size()==v.size(),"as many values as written"); for(size_t i=0;i<v.size();i++){ double d=r[i]-v[i],m=v[i]<0?-v[i]:v[i]; CHECK(r[i]==v[i]||(d<=1e-15*m&&d>=-1e-15*m),"same values to 16 digits"); } putFile(f,"  1.5\t-2e3\n\n\n 7\n.25 "); auto q=ReadText(f); CHECK(q.size()==4&&q[0]==1.5&&q[1]==-2000.0&&q[2]==7.0&&q[3]==0.25,"any white space separates"); putFile(f,""); CHECK(ReadText(f).empty(),"empty file"); putFile(f,"1 2 x 3"); auto w=ReadText(f); CHECK(w.size()<=2,"nothing invented after text that is no number"); } COVER("end"); }
template<class T> static void bin(int n,const std::vector<T>&v){ TmpFile f("bin"); WriteBinary(v,f); auto r=ReadBinaryVect<T>(f); CHECK((int)r.size()==n,"as many values as written"); for(int i=0;i<n;i++) CHECK(r[i]==v[i],"identical values"); std::vector<T> w(v); w.push_back(T(1)); WriteBinary(w,f); WriteBinary(v,f); CHECK((int)ReadBinaryVect<T>(f).size()==n,"a file written again is replaced"); }
H(binary){ int n=P(1); { switch(P(2)){ case 0: { auto v=odd(n); bin<double>(n,v); break; } case 1: { std::vector<int> v; for(int i=0;i<n;i++) v.push_back(SI("v",-2147483647-1,2147483647)); bin<int>(n,v); break; } case 2: { std::vector<char> v; for(int i=0;i<n;i++) v.push_back((char)SI("v",-128,127)); bin<char>(n,v); break; } default: { std::vector<long> v; for(int i=0;i<n;i++) v.push_back((long)SI("v",-2147483647-1,2147483647)*4294967311l); bin<long>(n,v); } } } COVER("end"); }
H(special_bin){ { TmpFile f("bin"); std::vector<double> v(special,special+12); v.push_back(INFINITY); v.push_back(NAN); WriteBinary(v,f); auto r=ReadBinaryVect(f); CHECK(r.size()==v.size(),"as many values as written"); CHECK(memcmp(r.data(),v.data(),v.size()*sizeof(double))==0,"identical bits"); } COVER("end"); }
H(binmat){ Lcg g(P(0)*17+5); int r=P(1),c=P(2),mx=P(3); { TmpFile f("mat"); auto a=genCsr("a",r,c,mx,DUP,g); for(auto&x:a.dat) x=oddReal("av"); const SparseMatrix<double> A=mk(a); WriteBinary(A,f); auto B=ReadBinaryMat(f); sameCsr(B,a,"identical matrix"); sameCsr(A,a,"matrix unchanged"); auto b=genCsr<int>("b",r,c,mx,DUP,g); WriteBinary(mk(b),f); auto D=ReadBinaryMat<int>(f); sameCsr(D,b,"identical integer matrix"); } COVER("end"); }
H(noopen){ { const std::string bad="/nonexistent-directory/file"; std::vector<double> v(2,1.0); SparseMatrix<double> A(2); THROWS(ReadText(bad),"reading text"); THROWS(ReadText<int>(bad),"reading text"); THROWS(WriteText(v,bad),"writing text"); THROWS(WriteBinary(v,bad),"writing a binary vector"); THROWS(ReadBinaryVect(bad),"reading a binary vector"); THROWS(WriteBinary(A,bad),"writing a binary matrix"); THROWS(ReadBinaryMat(bad),"reading a binary matrix"); } COVER("end"); }
// a file cut after any byte is refused rather than read as something shorter
static std::string bytes(const std::string&f,int n){ std::ifstream i(f.c_str(),std::ios::binary); std::string s(n,'\0'); i.read(&s[0],n); s.resize(i.gcount()); return s; }
static void cut(const std::string&f,int n){ std::string s=bytes(f,4096); std::ofstream o(f.c_str(),std::ios::binary); o.write(s.data(),n); o.close(); }
H(shortfile){ int n=P(1); { TmpFile f("cut"); if(P(2)==0){ std::vector<double> v(n,1.0/3); WriteBinary(v,f); int k=CI("k",0,8+8*n-1); cut(f,k); THROWS(ReadBinaryVect(f),"truncated vector"); } else { SparseMatrix<double> A(n); WriteBinary(A,f); int total=(int)bytes(f,4096).size(); int k=CI("k",0,total-1); cut(f,k); THROWS(ReadBinaryMat(f),"truncated matrix"); } } COVER("end"); }
//@ run text 0 0..4 0..1 0..1 t=60
//@ run itext 0 0..4 t=60
//@ run special_text 0 t=60
//@ run binary 0 0..4 0..3 t=60
//@ run special_bin 0 t=60
//@ run binmat 0 0..2 0..2 2 t=60
//@ run binmat 1..4 3 4 3 t=60
//@ run noopen 0 t=60
//@ run shortfile 0 0..2 0..1 0 t=60
// large shapes: concrete structure, symbolic values
//@ run text 0 16,32,64,128,256 0 0..1 t=60
//@ run itext 0 16,64,128,256 t=60
//@ run binary 0 16,32,64,128,256,512,1024,2048 0..3 t=60
//@ run binmat 4 16,32 32,64 8 t=60
//@ run text 0 17,130,300 0..1 0..1 t=60
//@ run itext 0 40,130 t=60
//@ run binary 0 33,300,1500 0..3 t=60
//@ run binmat 1..3 30,5 40,130 9 t=60
//@ thorough text 0 5..12 0 0..1 t=200
//@ thorough binary 0 5..12 0..3 t=200
//@ thorough binmat 0 3 3 2 t=600
//@ thorough binmat 5..12 6 5 4 t=200
//@ bounds vectors of up to 4 values (thorough 12) of double, int, char and long with symbolic values, sparse matrices of up to 2x2 with every structure and larger seeded ones, files cut after any byte; larger shapes (binary, binmat, itext, text): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume streams and files are a model: text written is text read, numbers in decimal are exact from 15 digits on and arbitrary below; the file system does what it is told
//@ outside values within rounding of the largest or smallest normal double (16 digits may read back outside the range); the host's file system, disk-full errors, very long vectors
