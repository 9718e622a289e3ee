// The random engine's outputs, drawn as inputs on first use and remembered by (engine key, position).
#include <cstdlib>
extern "C" { int __sym_int(const char*,int,int); double __sym_real_range(const char*,double,double); int __sym_is_symbolic_i(long); int __sym_fork(int); void __sym_assume(int); void __sym_abandon(const char*); void* __sym_rt_alloc(unsigned long); }
namespace { struct Rnd{ long key,pos; double u; int lo,hi,v; int hasU,hasI; }; Rnd*rnd; int nrnd; long freshKey; const int CAP=2048;
Rnd* rndAt(long key,long pos){ for(int i=0;i<nrnd;i++) if(rnd[i].key==key&&rnd[i].pos==pos) return &rnd[i];
#ifdef LINALGCPP_VERIF_NATIVE
  static Rnd pool[CAP]; rnd=pool;
#else
  if(!rnd) rnd=(Rnd*)__sym_rt_alloc(CAP*sizeof(Rnd));
#endif
  if(nrnd==CAP) __sym_abandon("random table full"); Rnd*r=&rnd[nrnd++]; r->key=key; r->pos=pos; r->hasU=r->hasI=0; return r; } }
extern "C" {
double __symrnd_unit(long key,long pos){ Rnd*r=rndAt(key,pos); if(!r->hasU){ r->u=__sym_real_range("rnd",0,1); r->hasU=1; } return r->u; }
int __symrnd_int(long key,long pos,int lo,int hi){ Rnd*r=rndAt(key,pos); if(!r->hasI||!__sym_fork(r->lo==lo&&r->hi==hi)){ int v=__sym_int("rndi",-2147483647-1,2147483647); __sym_assume(v>=lo&&v<=hi); r->v=v; r->hasI=1; r->lo=lo; r->hi=hi; } return r->v; }
long __symrnd_fresh(){ return ++freshKey; }
}
