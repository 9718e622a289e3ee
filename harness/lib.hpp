// Conversions between the library's types and the reference types.
#pragma once
#include "linalgcpp.hpp"
#include "sym.hpp"
using namespace linalgcpp;
template<class T> inline SparseMatrix<T> mk(const Csr<T>&a){ return SparseMatrix<T>(a.ptr,a.idx,a.dat,a.r,a.c); }
template<class T> inline Ref refOf(const SparseMatrix<T>&a){ Ref o(a.Rows(),a.Cols()); const auto&p=a.GetIndptr(); const auto&x=a.GetIndices(); const auto&d=a.GetData(); for(int i=0;i<a.Rows();i++) for(int j=p[i];j<p[i+1];j++) o.at(i,x[j])+=(double)d[j]; return o; }
inline Ref refOf(const DenseMatrix&a){ Ref o(a.Rows(),a.Cols()); const double*p=a.GetData(); for(int i=0;i<a.Rows();i++) for(int j=0;j<a.Cols();j++) o.at(i,j)=p[(size_t)j*a.Rows()+i]; return o; }
template<class T> inline void wellFormed(const SparseMatrix<T>&a,int r,int c,const char*m){ CHECK(a.Rows()==r&&a.Cols()==c,m); const auto&p=a.GetIndptr(); const auto&x=a.GetIndices(); const auto&d=a.GetData(); CHECK((int)p.size()==r+1,m); CHECK(p[0]==0,m); for(int i=0;i<r;i++) CHECK(p[i]<=p[i+1],m); CHECK(p[r]==(int)x.size()&&x.size()==d.size()&&a.nnz()==(int)x.size(),m); for(size_t k=0;k<x.size();k++) CHECK(x[k]>=0&&x[k]<c,m); }
template<class T> inline void sameCsr(const SparseMatrix<T>&a,const Csr<T>&b,const char*m){ CHECK(a.Rows()==b.r&&a.Cols()==b.c,m); const auto&p=a.GetIndptr(); const auto&x=a.GetIndices(); const auto&d=a.GetData(); CHECK(p.size()==b.ptr.size()&&x.size()==b.idx.size()&&d.size()==b.dat.size(),m); for(size_t i=0;i<p.size();i++) CHECK(p[i]==b.ptr[i],m); for(size_t i=0;i<x.size();i++){ CHECK(x[i]==b.idx[i],m); CHECKEQ(d[i],b.dat[i],m); } }
template<class T> inline Csr<T> csrOf(const SparseMatrix<T>&a){ Csr<T> o; o.r=a.Rows(); o.c=a.Cols(); o.ptr=a.GetIndptr(); o.idx=a.GetIndices(); o.dat=a.GetData(); return o; }
inline Ref symRef(const char*nm,int r,int c){ Ref a(r,c); for(auto&x:a.v) x=SR(nm); return a; }
inline DenseMatrix mk(const Ref&a){ DenseMatrix o(a.r,a.c); double*p=o.GetData(); for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) p[(size_t)j*a.r+i]=a.at(i,j); return o; }
inline DenseMatrix junkDense(int r,int c){ DenseMatrix o(r,c); double*p=o.GetData(); for(int i=0;i<r*c;i++) p[i]=SR("junk"); return o; }
template<class T=double> inline std::vector<T> symVec(const char*nm,int n){ std::vector<T> v(n); for(auto&x:v) x=SV<T>(nm); return v; }
template<class T> inline Vector<T> vec(const std::vector<T>&v){ Vector<T> o((int)v.size()); for(size_t i=0;i<v.size();i++) o[i]=v[i]; return o; }
template<class T> inline std::vector<double> dvec(const T&v){ std::vector<double> o; for(size_t i=0;i<(size_t)v.size();i++) o.push_back((double)v[i]); return o; }
template<class A,class B> inline void sameVec(const A&a,const B&b,const char*m){ CHECK((int)a.size()==(int)b.size(),m); for(int i=0;i<(int)b.size();i++) CHECK(a[i]==b[i],m); }
