#include "metis.hpp"
#include "metis.h"
#include "../harness/sym.hpp"
static std::vector<MCall>*g_mc; std::vector<MCall>& mcalls(){ if(!g_mc) g_mc=new std::vector<MCall>; return *g_mc; } void mclear(){ delete g_mc; g_mc=nullptr; }
extern "C" { int kmetis_fail=0, kmetis_free=1<<30; }
static void need(bool c,const char*m){ if(!c) __sym_fail(m); }
static bool rd(const void*p,long n){ return n<=0||(p!=nullptr&&__sym_readable(p,(unsigned long)(n*4))); }
extern "C" {
int METIS_SetDefaultOptions(idx_t*o){ need(rd(o,METIS_NOPTIONS),"METIS options smaller than METIS_NOPTIONS"); for(int i=0;i<METIS_NOPTIONS;i++) o[i]=-1; return METIS_OK; }
static int part(idx_t*nv,idx_t*nc,idx_t*xadj,idx_t*adj,idx_t*vw,idx_t*vs,idx_t*aw,idx_t*np,real_t*tp,real_t*ub,idx_t*o,idx_t*obj,idx_t*p){ MCall c; c.n=*nv; c.ncon=*nc; c.nparts=*np; (void)vs; need(c.n>=1,"METIS: no vertices"); need(c.nparts>=1,"METIS: no parts"); need(c.ncon==1,"METIS: constraints"); need(rd(xadj,c.n+1),"METIS: xadj smaller than n+1"); need(xadj[0]==0,"METIS: xadj does not start at 0"); for(int i=0;i<c.n;i++) need(xadj[i]<=xadj[i+1],"METIS: xadj decreases"); int m=conc(xadj[c.n]); need(rd(adj,m),"METIS: adjncy smaller than described"); need(aw==nullptr||rd(aw,m),"METIS: adjwgt smaller than described"); for(int i=0;i<=c.n;i++) c.xadj.push_back(xadj[i]); for(int i=0;i<m;i++){ need(adj[i]>=0&&adj[i]<c.n,"METIS: neighbour out of range"); c.adj.push_back(adj[i]); c.wgt.push_back(aw?aw[i]:1); } for(int i=0;i<c.n;i++) for(int j=conc(xadj[i]);j<conc(xadj[i+1]);j++) need(adj[j]!=i,"METIS: self loop");
  c.weights=aw!=nullptr; c.parts_weights=tp!=nullptr; c.vertex_weights=vw!=nullptr; c.ub=ub?*ub:0; c.contig=-1; c.numbering=0; if(o){ need(rd(o,METIS_NOPTIONS),"METIS options smaller than METIS_NOPTIONS"); c.contig=o[METIS_OPTION_CONTIG]; c.numbering=o[METIS_OPTION_NUMBERING]; } need(c.numbering==0||c.numbering==-1,"METIS: Fortran numbering requested for a C graph"); need(rd(obj,1),"METIS: no objective"); need(rd(p,c.n),"METIS: part smaller than n"); *obj=0; if(kmetis_fail){ for(int i=0;i<c.n;i++) c.part.push_back(0); mcalls().push_back(c); return METIS_ERROR_INPUT; } for(int i=0;i<c.n;i++){ int x= i<kmetis_free?CI("part",0,c.nparts-1):(i*i+3*i)%c.nparts; p[i]=x; c.part.push_back(x); } mcalls().push_back(c); return METIS_OK; }
int METIS_PartGraphKway(idx_t*a,idx_t*b,idx_t*c,idx_t*d,idx_t*e,idx_t*f,idx_t*g,idx_t*h,real_t*i,real_t*j,idx_t*k,idx_t*l,idx_t*m){ return part(a,b,c,d,e,f,g,h,i,j,k,l,m); }
int METIS_PartGraphRecursive(idx_t*a,idx_t*b,idx_t*c,idx_t*d,idx_t*e,idx_t*f,idx_t*g,idx_t*h,real_t*i,real_t*j,idx_t*k,idx_t*l,idx_t*m){ return part(a,b,c,d,e,f,g,h,i,j,k,l,m); }
}
