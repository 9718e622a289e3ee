// File names for harnesses: in-memory in the symbolic build, private to the process natively.
#pragma once
#include <fstream>
#include <sstream>
#ifdef LINALGCPP_VERIF_NATIVE
#include <unistd.h>
#include <cstdio>
extern bool native_count;
struct TmpFile { std::string n; explicit TmpFile(const char*b){ n=std::string(b)+"."+std::to_string((long)getpid()); } ~TmpFile(){ std::remove(n.c_str()); } operator const std::string&() const { return n; } };
#else
struct TmpFile { std::string n; explicit TmpFile(const char*b):n(b){} operator const std::string&() const { return n; } };
#endif
inline void putFile(const std::string&f,const std::string&t){ std::ofstream o(f.c_str()); o<<t; o.close(); }
inline std::string getFile(const std::string&f){ std::ifstream i(f.c_str()); std::string s,l; while(std::getline(i,l)){ s+=l; s+="\n"; } return s; }
// a value no short decimal represents exactly
inline double oddReal(const char*n){ return SR(n)*(1.0/3.0)+(1.0/7.0); }
inline bool sameReal(double a,double b){ if(__sym_native()){ double d=a-b,m=a<0?-a:a; return a==b||(d<=1e-15*m&&d>=-1e-15*m); } return __sym_fork(__sym_eq(a,b))!=0; }
