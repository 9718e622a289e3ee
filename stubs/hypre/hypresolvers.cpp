// Model of hypre's solvers, as far as the caller can tell them apart: every solver records its options; solving demands a set-up solver of the right
// kind, a matrix and vectors that fit, and returns a combination of the initial guess, the right hand side, the matrix applied to it, the options and
// the preconditioner's result, so that any difference in what was handed over shows in the result. It does not model how hypre approximates solutions.
#include "hypre_model.h"
#include "ranks.hpp"
#include "sym.hpp"
struct hypre_Solver_struct { int kind; double par[12]; int print; int setups; int stale; int rows; HYPRE_PtrToParSolverFcn prec,precSetup; HYPRE_Solver precData; HYPRE_MatvecFunctions*mv; void*A; void*mvData; HYPRE_PtrToSolverFcn lprec,lprecSetup; };
static const char*fit="matrix and vectors handed to hypre fit together";
static HYPRE_Solver mk(int kind){ auto*s=(HYPRE_Solver)calloc(1,sizeof(hypre_Solver_struct)); s->kind=kind; return s; }
static HYPRE_Solver of(HYPRE_Solver s,int kind){ CHECK(s!=nullptr&&s->kind==kind,"hypre is given a solver of the right kind"); return s; }
static HYPRE_Int set(HYPRE_Solver s,int kind,int k,double v,bool needsSetup=true){ of(s,kind); s->par[k]=v; if(needsSetup&&s->setups) s->stale=1; return 0; }
static HYPRE_Int drop(HYPRE_Solver s,int kind){ of(s,kind); free(s); return 0; }
static void shapes(hypre_ParCSRMatrix*A,hypre_ParVector*b,hypre_ParVector*x,bool data){ CHECK(A!=nullptr&&b!=nullptr&&x!=nullptr,fit); CHECK(A->global_num_rows==A->global_num_cols&&b->global_size==A->global_num_rows&&x->global_size==A->global_num_cols,fit); CHECK(b->local_vector->size==A->diag->num_rows&&x->local_vector->size==A->diag->num_cols,fit); if(data&&A->diag->num_rows) CHECK(b->local_vector->data!=nullptr&&x->local_vector->data!=nullptr&&b->local_vector->data!=x->local_vector->data,"solution and right hand side are two different arrays"); }
static hypre_ParVector*like(hypre_ParVector*v){ auto*w=hypre_ParVectorCreate(v->comm,v->global_size,v->partitioning); hypre_ParVectorSetPartitioningOwner(w,0); hypre_ParVectorInitialize(w); return w; }
static HYPRE_Int setup(HYPRE_Solver s,int kind,hypre_ParCSRMatrix*A,hypre_ParVector*b,hypre_ParVector*x){ of(s,kind); shapes(A,b,x,false); s->setups++; s->stale=0; s->rows=A->diag->num_rows; MPI_Barrier(A->comm); return 0; }
double hm_digest(HYPRE_Solver s){ double d=s->kind; for(int k=0;k<12;k++) d+=(k+1)*s->par[k]; return d; }
double hm_par(HYPRE_Solver s,int k){ return s->par[k]; } int hm_print(HYPRE_Solver s){ return s->print; }
static HYPRE_Int solve(HYPRE_Solver s,int kind,hypre_ParCSRMatrix*A,hypre_ParVector*b,hypre_ParVector*x){ of(s,kind); shapes(A,b,x,true); CHECK(s->setups>0,"a solver is set up before it solves"); CHECK(!s->stale,"options that matter for the setup are given before it"); CHECK(s->rows==A->diag->num_rows,"a solver is set up with the matrix it solves with");
  int n=s->rows; auto*t=like(b); auto*r=like(b); auto*z=like(x); for(int i=0;i<n;i++) r->local_vector->data[i]=b->local_vector->data[i]; hypre_ParCSRMatrixMatvec(1.0,A,r,0.0,t); if(s->prec){ s->prec(s->precData,A,r,z); for(int i=0;i<n;i++) CHECKEQ(r->local_vector->data[i],b->local_vector->data[i],"a preconditioner leaves its input alone"); }
  double d=hm_digest(s); for(int i=0;i<n;i++) x->local_vector->data[i]=3*x->local_vector->data[i]+d*b->local_vector->data[i]+t->local_vector->data[i]+z->local_vector->data[i]; hypre_ParVectorDestroy(t); hypre_ParVectorDestroy(r); hypre_ParVectorDestroy(z); return 0; }
enum { AMG=1,SAILS=2,PCG=3,LOB=4 };
extern "C" {
HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver*s){ *s=mk(AMG); const double def[]={6,0,3,1,0.25,0,0,25,20,1e-7}; for(int k=0;k<10;k++) (*s)->par[k]=def[k]; return 0; } HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver s){ return drop(s,AMG); }
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver s,HYPRE_ParCSRMatrix A,HYPRE_ParVector b,HYPRE_ParVector x){ return setup(s,AMG,A,b,x); } HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver s,HYPRE_ParCSRMatrix A,HYPRE_ParVector b,HYPRE_ParVector x){ return solve(s,AMG,A,b,x); }
#define I1(N,k,need) HYPRE_Int HYPRE_BoomerAMGSet##N(HYPRE_Solver s,HYPRE_Int v){ return set(s,AMG,k,v,need); }
I1(CoarsenType,0,true) I1(AggNumLevels,1,true) I1(RelaxType,2,true) I1(NumSweeps,3,true) I1(InterpType,5,true) I1(PMaxElmts,6,true) I1(MaxLevels,7,true) I1(MaxIter,8,false)
HYPRE_Int HYPRE_BoomerAMGSetStrongThreshold(HYPRE_Solver s,HYPRE_Real v){ return set(s,AMG,4,v); } HYPRE_Int HYPRE_BoomerAMGSetTol(HYPRE_Solver s,HYPRE_Real v){ return set(s,AMG,9,v,false); } HYPRE_Int HYPRE_BoomerAMGSetPrintLevel(HYPRE_Solver s,HYPRE_Int v){ of(s,AMG)->print=v; return 0; }
HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm c,HYPRE_Solver*s){ CHECK(c==MPI_COMM_WORLD,"the communicator given by the caller"); *s=mk(SAILS); const double def[]={0.1,1,0.1,1,0,0}; for(int k=0;k<6;k++) (*s)->par[k]=def[k]; return 0; } HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver s){ return drop(s,SAILS); }
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver s,HYPRE_ParCSRMatrix A,HYPRE_ParVector b,HYPRE_ParVector x){ return setup(s,SAILS,A,b,x); } HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver s,HYPRE_ParCSRMatrix A,HYPRE_ParVector b,HYPRE_ParVector x){ return solve(s,SAILS,A,b,x); }
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver s,HYPRE_Real t,HYPRE_Int n){ set(s,SAILS,0,t); return set(s,SAILS,1,n); } HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver s,HYPRE_Real v){ return set(s,SAILS,2,v,false); } HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver s,HYPRE_Int v){ return set(s,SAILS,3,v,false); } HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver s,HYPRE_Real v){ return set(s,SAILS,4,v,false); } HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver s,HYPRE_Int v){ return set(s,SAILS,5,v,false); } HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver s,HYPRE_Int v){ of(s,SAILS)->print=v; return 0; }
HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm c,HYPRE_Solver*s){ CHECK(c==MPI_COMM_WORLD,"the communicator given by the caller"); *s=mk(PCG); (*s)->par[0]=1e-6; (*s)->par[1]=1000; return 0; } HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver s){ return drop(s,PCG); }
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver s,HYPRE_ParCSRMatrix A,HYPRE_ParVector b,HYPRE_ParVector x){ setup(s,PCG,A,b,x); return s->precSetup? s->precSetup(s->precData,A,b,x):0; } HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver s,HYPRE_ParCSRMatrix A,HYPRE_ParVector b,HYPRE_ParVector x){ return solve(s,PCG,A,b,x); }
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver s,HYPRE_PtrToParSolverFcn p,HYPRE_PtrToParSolverFcn ps,HYPRE_Solver d){ of(s,PCG); s->prec=p; s->precSetup=ps; s->precData=d; return 0; } HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver s,HYPRE_Int v){ of(s,PCG)->print=v; return 0; } HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver s,HYPRE_Real v){ return set(s,PCG,0,v,false); } HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver s,HYPRE_Int v){ return set(s,PCG,1,v,false); }
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector){ return 0; }
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver,HYPRE_ParCSRMatrix A,HYPRE_ParVector y,HYPRE_ParVector x){ shapes(A,y,x,true); for(int i=0;i<A->diag->num_rows;i++) x->local_vector->data[i]=y->local_vector->data[i]/A->diag->data[A->diag->i[i]]; return 0; }
// l1-scaled Jacobi as in hypre; the other smoothers only by what they are given
HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix*A,hypre_ParVector*f,HYPRE_Int type,HYPRE_Int times,HYPRE_Real*l1,HYPRE_Real w,HYPRE_Real om,HYPRE_Real,HYPRE_Real,HYPRE_Int,HYPRE_Real,hypre_ParVector*u,hypre_ParVector*v,hypre_ParVector*){ shapes(A,f,u,true); shapes(A,v,u,true); int n=A->diag->num_rows; CHECK(n==0||v->local_vector->data!=f->local_vector->data,"the smoother's scratch array is its own"); double*U=u->local_vector->data,*V=v->local_vector->data,*F=f->local_vector->data;
  for(int t=0;t<times;t++){ hypre_ParCSRMatrixMatvec(1.0,A,u,0.0,v); if(type==1) for(int i=0;i<n;i++){ U[i]+=w*(F[i]-V[i])/l1[i]; V[i]=0; } else for(int i=0;i<n;i++){ U[i]+=(type+w+7*om)*(F[i]-V[i])+l1[i]; V[i]=0; } } return 0; }
// eigensolver
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*i){ i->model=1; return 0; } static void*noCreate(void*,void*){ return nullptr; } static HYPRE_Int noMatvec(void*,HYPRE_Complex,void*,void*,HYPRE_Complex,void*){ __sym_fail("the operator's own product is used"); return 0; } static HYPRE_Int noDestroy(void*){ return 0; }
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions*m){ m->MatvecCreate=noCreate; m->Matvec=noMatvec; m->MatvecDestroy=noDestroy; return 0; }
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*i,HYPRE_MatvecFunctions*m,HYPRE_Solver*s){ CHECK(i&&i->model==1&&m,"interpreter and products are given"); *s=mk(LOB); (*s)->mv=m; return 0; } HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver s){ of(s,LOB); if(s->setups) s->mv->MatvecDestroy(s->mvData); return drop(s,LOB); }
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver s,HYPRE_Matrix A,HYPRE_Vector b,HYPRE_Vector x){ of(s,LOB); s->A=A; s->setups++; s->mvData=s->mv->MatvecCreate(A,x); if(s->lprec) s->lprecSetup(s->precData,A,b,x); return 0; }
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver s,HYPRE_PtrToSolverFcn p,HYPRE_PtrToSolverFcn ps,HYPRE_Solver d){ of(s,LOB); s->lprec=p; s->lprecSetup=ps; s->precData=d; return 0; } HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver s,HYPRE_Int v){ of(s,LOB)->print=v; return 0; }
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void*i,HYPRE_Int n,void*sample){ auto*t=(mv_TempMultiVector*)calloc(1,sizeof(mv_TempMultiVector)); t->numVectors=n; t->interpreter=(mv_InterfaceInterpreter*)i; t->vector=(void**)calloc(n?n:1,sizeof(void*)); for(int k=0;k<n;k++) t->vector[k]=like((hypre_ParVector*)sample); return (mv_MultiVectorPtr)t; }
void mv_MultiVectorDestroy(mv_MultiVectorPtr m){ auto*t=(mv_TempMultiVector*)m; for(long k=0;k<t->numVectors;k++) hypre_ParVectorDestroy((hypre_ParVector*)t->vector[k]); free(t->vector); free(t); } void*mv_MultiVectorGetData(mv_MultiVectorPtr m){ return m; }
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver s,mv_MultiVectorPtr con,mv_MultiVectorPtr m,HYPRE_Real*ev){ of(s,LOB); CHECK(s->setups==1,"the eigensolver is set up once"); CHECK(con==nullptr,"no constraints"); auto*t=(mv_TempMultiVector*)m; for(long k=0;k<t->numVectors;k++){ auto*x=(hypre_ParVector*)t->vector[k]; auto*y=like(x); auto*z=like(x); int n=x->local_vector->size; s->mv->Matvec(s->mvData,1.0,s->A,x,0.0,y); if(s->lprec) s->lprec(s->precData,(HYPRE_Matrix)s->A,(HYPRE_Vector)y,(HYPRE_Vector)z); double d=0; for(int i=0;i<n;i++) d+=x->local_vector->data[i]*y->local_vector->data[i]; double g=0; MPI_Allreduce(&d,&g,1,MPI_DOUBLE,MPI_SUM,x->comm); ev[k]=g; for(int i=0;i<n;i++) x->local_vector->data[i]=2*x->local_vector->data[i]+y->local_vector->data[i]+5*z->local_vector->data[i]; hypre_ParVectorDestroy(y); hypre_ParVectorDestroy(z); } return 0; }
}
