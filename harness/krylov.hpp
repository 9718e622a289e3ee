// Small exact linear systems for the iterative solvers: every quantity is a rational multiple of one positive symbolic scale.
#pragma once
#include "lib.hpp"
#include "solvers.hpp"
typedef std::vector<double> D;
struct Op : public Operator { Ref R; mutable int n=0; explicit Op(const Ref&r):Operator(r.r,r.c),R(r){} using Operator::Mult;
  void Mult(const VectorView<double>&x,VectorView<double> y) const override { n++; CHECK(x.size()==R.c&&y.size()==R.r,"operator applied to vectors of its size"); D t; for(int i=0;i<R.r;i++){ double s=0; for(int j=0;j<R.c;j++) if(R.at(i,j)!=0) s+=R.at(i,j)*x[j]; t.push_back(s); } for(int i=0;i<R.r;i++) y[i]=t[i]; } };
typedef double (*DotF)(const VectorView<double>&,const VectorView<double>&);
inline double wgt(int i){ return (double)(1<<(i%3)); }
inline double wdot(const VectorView<double>&x,const VectorView<double>&y){ double s=0; for(int i=0;i<x.size();i++) s+=wgt(i)*x[i]*y[i]; return s; }
inline double pdot(const VectorView<double>&x,const VectorView<double>&y){ double s=0; for(int i=0;i<x.size();i++) s+=x[i]*y[i]; return s; }
inline double dot(const D&a,const D&b,bool w=false){ double s=0; for(size_t i=0;i<a.size();i++) s+=(w?wgt((int)i):1.0)*a[i]*b[i]; return s; }
inline D axpy(const D&y,double a,const D&x){ D r; for(size_t i=0;i<x.size();i++) r.push_back(y[i]+a*x[i]); return r; }
inline D residual(const Ref&A,const D&b,const D&x){ return axpy(b,-1.0,mul(A,x)); }
// symmetric positive definite with small integer entries; with a weight, self-adjoint and positive in that inner product
inline Ref spd(int n,Lcg&g,int shift=1){ Ref B(n,n),A(n,n); for(auto&x:B.v) x=g.next(5)-2; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double s=i==j?shift:0; for(int k=0;k<n;k++) s+=B.at(k,i)*B.at(k,j); A.at(i,j)=s; } return A; }
inline Ref symInt(int n,Lcg&g){ Ref A(n,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) A.at(i,j)=A.at(j,i)=g.next(7)-3; return A; }
inline double det(Ref A){ int n=A.r; double d=1; for(int c=0;c<n;c++){ int p=c; while(p<n&&A.at(p,c)==0) p++; if(p==n) return 0; if(p!=c){ for(int k=0;k<n;k++){ double t=A.at(p,k); A.at(p,k)=A.at(c,k); A.at(c,k)=t; } d=-d; } d*=A.at(c,c); for(int r=c+1;r<n;r++){ double f=A.at(r,c)/A.at(c,c); for(int k=c;k<n;k++) A.at(r,k)-=f*A.at(c,k); } } return d; }
inline Ref weighted(const Ref&A){ Ref o(A); for(int i=0;i<A.r;i++) for(int j=0;j<A.c;j++) o.at(i,j)=A.at(i,j)/wgt(i); return o; }
inline Ref diagOf(int n,Lcg&g){ Ref M(n,n); for(int i=0;i<n;i++) M.at(i,i)=1.0/(1<<g.next(3)); return M; }
inline D ints(int n,Lcg&g,double s,bool nz=true){ D v; bool any=false; for(int i=0;i<n;i++){ int k=g.next(7)-3; any|=k!=0; v.push_back(k*s); } if(nz&&!any&&n) v[0]=2*s; return v; }
inline D asD(const Vector<double>&v){ return dvec(v); }
