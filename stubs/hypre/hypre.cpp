// Model of MPI and of the part of hypre 2.10 that parlinalgcpp uses. Ranks are fibers; messages are first in, first out per pair of ranks; collectives synchronise.
#include "hypre_model.h"
#include "ranks.hpp"
#include "sym.hpp"
extern "C" { HYPRE_Int hypre__global_error=0; }
// ------------------------------------------------------------ scheduler
static const int MAXR=4; static int nR=0,cur=0,order=0; static long fib[MAXR]; static int done[MAXR]; static long events; static void(*rankFn)(int);
struct Msg{ int src,dst,type,len; void*data; Msg*next; }; static Msg*inbox[MAXR]; static Msg*inboxLast[MAXR];
#define FAILMSG(m) __sym_fail(m)
static void yieldRank(){ __sym_switch(0); }
static void body(void*p){ int r=(int)(long)p; rankFn(r); done[r]=1; events++; for(;;) yieldRank(); }
void hm_order(int o){ order=o; }
void hm_run(int R,void(*f)(int)){ nR=R; rankFn=f; for(int r=0;r<R;r++){ done[r]=0; inbox[r]=inboxLast[r]=nullptr; fib[r]=__sym_fiber(body,(void*)(long)r); }
  for(;;){ long before=events; int left=0; for(int k=0;k<R;k++){ int r= order? R-1-k:k; if(done[r]) continue; left++; cur=r; __sym_switch(fib[r]); } if(!left) break; if(events==before) FAILMSG("every rank waits for another one"); }
  for(int r=0;r<R;r++) if(inbox[r]) FAILMSG("a message was sent but never received"); nR=0; }
int hm_rank(){ return cur; } int hm_size(){ return nR; }
// ------------------------------------------------------------ collectives
struct Call{ int kind,count,type,op,root; void*in; void*out; void*aux; }; static Call call[MAXR]; static int arrived; static long finished; 
enum { SCAN=1,BCAST,ALLREDUCE,EXSCAN,ALLGATHER,BARRIER,COMMPKG,BEXT,MATVEC,MATVECT };
static void perform();
static void collective(Call c){ int me=cur; call[me]=c; long mine=finished; events++;
  if(++arrived==nR){ for(int r=1;r<nR;r++){ CHECK(call[r].kind==call[0].kind,"the ranks call the same collective operation"); CHECK(call[r].count==call[0].count&&call[r].type==call[0].type&&call[r].op==call[0].op&&call[r].root==call[0].root,"the ranks agree on the collective operation"); } perform(); arrived=0; finished++; events++; return; }
  while(finished==mine){ yieldRank(); cur=me; } events++; }
static double red(double a,double b,int op){ return op==MPI_SUM? a+b : op==MPI_MAX? (a<b?b:a) : (b<a?b:a); }
static int redi(int a,int b,int op){ return op==MPI_SUM? a+b : op==MPI_MAX? (a<b?b:a) : (b<a?b:a); }
static double scaleA[MAXR],scaleB[MAXR]; static void matvec(bool T); static void commpkgs(); static void bext();
static void perform(){ int n=call[0].count; bool d=call[0].type==MPI_DOUBLE; 
  switch(call[0].kind){
    case BARRIER: return;
    case BCAST: { int root=call[0].root; CHECK(root>=0&&root<nR,"broadcast from an existing rank"); for(int r=0;r<nR;r++) if(r!=root) for(int i=0;i<n;i++){ if(d) ((double*)call[r].out)[i]=((double*)call[root].in)[i]; else ((int*)call[r].out)[i]=((int*)call[root].in)[i]; } return; }
    case ALLREDUCE: for(int i=0;i<n;i++){ if(d){ double s=((double*)call[0].in)[i]; for(int r=1;r<nR;r++) s=red(s,((double*)call[r].in)[i],call[0].op); for(int r=0;r<nR;r++) ((double*)call[r].out)[i]=s; } else { int s=((int*)call[0].in)[i]; for(int r=1;r<nR;r++) s=redi(s,((int*)call[r].in)[i],call[0].op); for(int r=0;r<nR;r++) ((int*)call[r].out)[i]=s; } } return;
    case SCAN: case EXSCAN: for(int i=0;i<n;i++){ if(d){ double s=0; for(int r=0;r<nR;r++){ double v=((double*)call[r].in)[i]; double t= r?red(s,v,call[0].op):v; if(call[0].kind==SCAN) ((double*)call[r].out)[i]=t; else if(r) ((double*)call[r].out)[i]=s; s=t; } } else { int s=0; for(int r=0;r<nR;r++){ int v=((int*)call[r].in)[i]; int t= r?redi(s,v,call[0].op):v; if(call[0].kind==SCAN) ((int*)call[r].out)[i]=t; else if(r) ((int*)call[r].out)[i]=s; s=t; } } } return;
    case ALLGATHER: for(int r=0;r<nR;r++) for(int q=0;q<nR;q++) for(int i=0;i<n;i++){ if(d) ((double*)call[r].out)[q*n+i]=((double*)call[q].in)[i]; else ((int*)call[r].out)[q*n+i]=((int*)call[q].in)[i]; } return;
    case COMMPKG: commpkgs(); return; case BEXT: bext(); return; case MATVEC: matvec(false); return; case MATVECT: matvec(true); return; } }
static void chk(int n,MPI_Comm c){ CHECK(c==MPI_COMM_WORLD,"the communicator given by the caller"); CHECK(n>=0,"message length is not negative"); }
extern "C" {
int MPI_Comm_size(MPI_Comm c,int*s){ chk(0,c); *s=nR; return 0; } int MPI_Comm_rank(MPI_Comm c,int*r){ chk(0,c); *r=cur; return 0; }
int MPI_Scan(const void*i,void*o,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ chk(n,c); collective({SCAN,n,t,op,0,(void*)i,o,0}); return 0; }
int MPI_Exscan(const void*i,void*o,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ chk(n,c); collective({EXSCAN,n,t,op,0,(void*)i,o,0}); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ chk(n,c); collective({BCAST,n,t,0,root,b,b,0}); return 0; }
int MPI_Allreduce(const void*i,void*o,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ chk(n,c); collective({ALLREDUCE,n,t,op,0,(void*)i,o,0}); return 0; }
int MPI_Allgather(const void*i,int n,MPI_Datatype t,void*o,int,MPI_Datatype,MPI_Comm c){ chk(n,c); collective({ALLGATHER,n,t,0,0,(void*)i,o,0}); return 0; }
int MPI_Barrier(MPI_Comm c){ chk(0,c); collective({BARRIER,0,0,0,0,0,0,0}); return 0; }
// ------------------------------------------------------------ hypre: utilities
char*hypre_CAlloc(size_t n,size_t s){ return n*s? (char*)calloc(n,s):nullptr; } void hypre_Free(char*p){ if(p) free(p); }
HYPRE_Int hypre_NumThreads(){ return 1; } HYPRE_Int hypre_NumActiveThreads(){ return 1; } HYPRE_Int hypre_GetThreadNum(){ return 0; } HYPRE_Int HYPRE_AssumedPartitionCheck(){ return 1; }
HYPRE_Int hypre_MPI_Comm_size(MPI_Comm c,HYPRE_Int*s){ return MPI_Comm_size(c,s); } HYPRE_Int hypre_MPI_Comm_rank(MPI_Comm c,HYPRE_Int*r){ return MPI_Comm_rank(c,r); }
void hypre_error_in_arg_f(HYPRE_Int a){ hypre__global_error|= 4|(a<<3); }
HYPRE_Int hypre_BinarySearch(HYPRE_Int*l,HYPRE_Int v,HYPRE_Int n){ int lo=0,hi=n-1; while(lo<=hi){ int m=(lo+hi)/2; if(v<l[m]) hi=m-1; else if(v>l[m]) lo=m+1; else return m; } return -1; }
// ------------------------------------------------------------ hypre: vectors and matrices
hypre_ParVector*hypre_ParVectorCreate(MPI_Comm c,HYPRE_Int g,HYPRE_Int*p){ chk(0,c); if(g<0||!p){ hypre_error_in_arg(2); return nullptr; } auto*v=(hypre_ParVector*)hypre_CAlloc(1,sizeof(hypre_ParVector)); v->comm=c; v->global_size=g; v->first_index=p[0]; v->last_index=p[1]-1; v->partitioning=p; v->local_vector=(hypre_Vector*)hypre_CAlloc(1,sizeof(hypre_Vector)); v->local_vector->size=p[1]-p[0]; v->local_vector->num_vectors=1; v->local_vector->owns_data=1; v->actual_local_size=p[1]-p[0]; v->owns_data=1; v->owns_partitioning=1; return v; }
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector*v){ if(v){ if(v->owns_data){ if(v->local_vector->owns_data) hypre_Free((char*)v->local_vector->data); hypre_Free((char*)v->local_vector); } if(v->owns_partitioning) hypre_Free((char*)v->partitioning); hypre_Free((char*)v); } return 0; }
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector*v){ if(!v->local_vector->data) v->local_vector->data=(double*)hypre_CAlloc(v->local_vector->size,sizeof(double)); return 0; }
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector*v,HYPRE_Int o){ v->owns_partitioning=o; return 0; } HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector*v,HYPRE_Int o){ v->owns_data=o; return 0; } HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector*v,HYPRE_Int o){ v->owns_data=o; return 0; }
static hypre_CSRMatrix*csr(int r,int c,int z){ auto*m=(hypre_CSRMatrix*)hypre_CAlloc(1,sizeof(hypre_CSRMatrix)); m->num_rows=r; m->num_cols=c; m->num_nonzeros=z; m->num_rownnz=r; m->owns_data=1; return m; }
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix*m){ if(m){ hypre_Free((char*)m->i); m->i=nullptr; hypre_Free((char*)m->rownnz); if(m->owns_data){ hypre_Free((char*)m->data); hypre_Free((char*)m->j); } hypre_Free((char*)m); } return 0; }
hypre_ParCSRMatrix*hypre_ParCSRMatrixCreate(MPI_Comm c,HYPRE_Int gr,HYPRE_Int gc,HYPRE_Int*rs,HYPRE_Int*cs,HYPRE_Int nco,HYPRE_Int nd,HYPRE_Int no){ chk(0,c); auto*A=(hypre_ParCSRMatrix*)hypre_CAlloc(1,sizeof(hypre_ParCSRMatrix)); A->comm=c; A->global_num_rows=gr; A->global_num_cols=gc; A->first_row_index=rs[0]; A->first_col_diag=cs[0]; A->last_row_index=rs[1]-1; A->last_col_diag=cs[1]-1; A->diag=csr(rs[1]-rs[0],cs[1]-cs[0],nd); A->offd=csr(rs[1]-rs[0],nco,no); A->row_starts=rs; A->col_starts=cs; A->owns_data=1; A->owns_row_starts=1; A->owns_col_starts= rs==cs?0:1; A->num_nonzeros=0; return A; }
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix*A){ if(A){ if(A->owns_data){ hypre_CSRMatrixDestroy(A->diag); hypre_CSRMatrixDestroy(A->offd); hypre_Free((char*)A->col_map_offd); if(A->comm_pkg) hypre_MatvecCommPkgDestroy(A->comm_pkg); } if(A->owns_row_starts) hypre_Free((char*)A->row_starts); if(A->owns_col_starts) hypre_Free((char*)A->col_starts); hypre_Free((char*)A); } return 0; }
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix*A){ int loc=A->diag->i[A->diag->num_rows]+A->offd->i[A->offd->num_rows]; int tot=0; MPI_Allreduce(&loc,&tot,1,MPI_INT,MPI_SUM,A->comm); A->num_nonzeros=tot; return 0; }
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix*m){ int n=0; for(int i=0;i<m->num_rows;i++) if(m->i[i+1]-m->i[i]>0) n++; m->num_rownnz=n; if(n==0||n==m->num_rows) m->rownnz=nullptr; else { m->rownnz=(int*)hypre_CAlloc(n,sizeof(int)); int k=0; for(int i=0;i<m->num_rows;i++) if(m->i[i+1]-m->i[i]>0) m->rownnz[k++]=i; } return 0; }
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix*m){ if(m->num_rows!=m->num_cols) return -1; int*J=m->j; double*D=m->data; for(int i=0;i<m->num_rows;i++){ int n=m->i[i+1]-m->i[i]; for(int j=0;j<n;j++){ if(J[j]==i){ if(j){ int t=J[0]; J[0]=J[j]; J[j]=t; double d=D[0]; D[0]=D[j]; D[j]=d; } break; } if(j==n-1) return -2; } J+=n; D+=n; } return 0; }
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix*A){ chk(0,A->comm); collective({COMMPKG,0,0,0,0,A,0,0}); return 0; }
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg*p){ hypre_Free((char*)p->send_procs); hypre_Free((char*)p->send_map_starts); hypre_Free((char*)p->send_map_elmts); hypre_Free((char*)p->recv_procs); hypre_Free((char*)p->recv_vec_starts); hypre_Free((char*)p); return 0; }
hypre_CSRMatrix*hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix*B,hypre_ParCSRMatrix*A,HYPRE_Int data){ CHECK(data==1,"the values of the remote rows are needed"); hypre_CSRMatrix*out=nullptr; collective({BEXT,0,0,0,0,B,&out,A}); return out; }
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex a,hypre_ParCSRMatrix*A,hypre_ParVector*x,HYPRE_Complex b,hypre_ParVector*y){ scaleA[cur]=a; scaleB[cur]=b; CHECK(A->global_num_cols==x->global_size&&A->global_num_rows==y->global_size&&A->diag->num_cols==x->local_vector->size&&A->diag->num_rows==y->local_vector->size,"the library is given vectors of the matrix's sizes"); collective({MATVEC,0,0,0,0,x,y,A}); return 0; }
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex a,hypre_ParCSRMatrix*A,hypre_ParVector*x,HYPRE_Complex b,hypre_ParVector*y){ scaleA[cur]=a; scaleB[cur]=b; CHECK(A->global_num_rows==x->global_size&&A->global_num_cols==y->global_size&&A->diag->num_rows==x->local_vector->size&&A->diag->num_cols==y->local_vector->size,"the library is given vectors of the matrix's sizes"); collective({MATVECT,0,0,0,0,x,y,A}); return 0; }
// ------------------------------------------------------------ hypre: exchange along a communication package
static void put(int to,int type,const void*p,int n){ Msg*m=(Msg*)calloc(1,sizeof(Msg)); int w=type?4:8; m->src=cur; m->dst=to; m->type=type; m->len=n; m->data= n?malloc(n*w):nullptr; if(n) memcpy(m->data,p,n*w); if(inboxLast[to]) inboxLast[to]->next=m; else inbox[to]=m; inboxLast[to]=m; events++; }
static Msg*take(int from){ for(;;){ Msg*prev=nullptr; for(Msg*m=inbox[cur];m;prev=m,m=m->next) if(m->src==from){ if(prev) prev->next=m->next; else inbox[cur]=m->next; if(inboxLast[cur]==m) inboxLast[cur]=prev; events++; return m; } int me=cur; yieldRank(); cur=me; } }
hypre_ParCSRCommHandle*hypre_ParCSRCommHandleCreate(HYPRE_Int job,hypre_ParCSRCommPkg*p,void*s,void*r){ CHECK(job==1||job==2||job==11||job==12,"the model knows the jobs 1, 2, 11 and 12"); chk(0,p->comm); bool rev=job==2||job==12; int type=job>10; int w=type?4:8; auto*h=(hypre_ParCSRCommHandle*)hypre_CAlloc(1,sizeof(hypre_ParCSRCommHandle)); h->comm_pkg=p; h->job=job; h->send_data=s; h->recv_data=r;
  int n= rev?p->num_recvs:p->num_sends; int*st= rev?p->recv_vec_starts:p->send_map_starts; int*pr= rev?p->recv_procs:p->send_procs; for(int i=0;i<n;i++) put(pr[i],type,(char*)s+(long)st[i]*w,st[i+1]-st[i]); return h; }
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle*h){ auto*p=h->comm_pkg; bool rev=h->job==2||h->job==12; int type=h->job>10; int w=type?4:8; int n= rev?p->num_sends:p->num_recvs; int*st= rev?p->send_map_starts:p->recv_vec_starts; int*pr= rev?p->send_procs:p->recv_procs;
  for(int i=0;i<n;i++){ Msg*m=take(pr[i]); CHECK(m->type==type&&m->len==st[i+1]-st[i],"sender and receiver agree on the type and length of a message"); if(m->len) memcpy((char*)h->recv_data+(long)st[i]*w,m->data,(size_t)m->len*w); free(m->data); free(m); } hypre_Free((char*)h); return 0; }
}
static hypre_ParCSRMatrix*mat(int r){ return (hypre_ParCSRMatrix*)(call[r].kind==COMMPKG?call[r].in:call[r].aux); }
static int owner(hypre_ParCSRMatrix*const*M,int col){ for(int r=0;r<nR;r++) if(col>=M[r]->first_col_diag&&col<=M[r]->last_col_diag) return r; FAILMSG("a remote column that no rank owns"); return 0; }
static int sendRev(){ static int have=-1; if(have<0) have=__sym_int("sends_in_reverse",0,1); return have; }
static void commpkgs(){ hypre_ParCSRMatrix*M[MAXR]; for(int r=0;r<nR;r++) M[r]=mat(r);
  int sc=cur; for(int r=0;r<nR;r++){ cur=r; auto*p=(hypre_ParCSRCommPkg*)hypre_CAlloc(1,sizeof(hypre_ParCSRCommPkg)); p->comm=M[r]->comm; int nc=M[r]->offd->num_cols; const int*cm=M[r]->col_map_offd;
    p->recv_procs=(int*)hypre_CAlloc(nR,4); p->recv_vec_starts=(int*)hypre_CAlloc(nR+1,4); int last=-1; for(int c=0;c<nc;c++){ if(c) CHECK(cm[c]>cm[c-1],"the remote columns given to hypre are sorted without duplicates"); int o=owner(M,cm[c]); CHECK(o!=r,"a remote column is owned by another rank"); if(o!=last){ p->recv_procs[p->num_recvs++]=o; last=o; } p->recv_vec_starts[p->num_recvs]=c+1; }
    p->send_procs=(int*)hypre_CAlloc(nR,4); p->send_map_starts=(int*)hypre_CAlloc(nR+1,4); int tot=0; for(int q=0;q<nR;q++) if(q!=r) for(int c=0;c<M[q]->offd->num_cols;c++) if(owner(M,M[q]->col_map_offd[c])==r) tot++; p->send_map_elmts=(int*)hypre_CAlloc(tot,4); int k=0; bool rev= nR>2&&sendRev(); for(int z=0;z<nR;z++){ int q= rev? nR-1-z:z; if(q==r) continue; int k0=k; for(int c=0;c<M[q]->offd->num_cols;c++){ int col=M[q]->col_map_offd[c]; if(owner(M,col)==r) p->send_map_elmts[k++]=col-M[r]->first_col_diag; } if(k>k0){ p->send_procs[p->num_sends++]=q; p->send_map_starts[p->num_sends]=k; } }
    M[r]->comm_pkg=p; } cur=sc; }
static void bext(){ hypre_ParCSRMatrix*B[MAXR]; for(int r=0;r<nR;r++) B[r]=(hypre_ParCSRMatrix*)call[r].in;
  for(int r=0;r<nR;r++){ hypre_ParCSRMatrix*A=(hypre_ParCSRMatrix*)call[r].aux; int n=A->offd->num_cols; int z=0; auto*m=csr(n,B[r]->global_num_cols,0); m->i=(int*)hypre_CAlloc(n+1,4); for(int pass=0;pass<2;pass++){ z=0; for(int k=0;k<n;k++){ int row=A->col_map_offd[k]; hypre_ParCSRMatrix*S=nullptr; for(int q=0;q<nR;q++) if(row>=B[q]->first_row_index&&row<=B[q]->last_row_index) S=B[q]; CHECK(S!=nullptr,"a remote row that no rank owns"); int lr=row-S->first_row_index; for(int e=S->diag->i[lr];e<S->diag->i[lr+1];e++){ if(pass){ m->j[z]=S->diag->j[e]+S->first_col_diag; m->data[z]=S->diag->data[e]; } z++; } for(int e=S->offd->i[lr];e<S->offd->i[lr+1];e++){ if(pass){ m->j[z]=S->col_map_offd[S->offd->j[e]]; m->data[z]=S->offd->data[e]; } z++; } m->i[k+1]=z; } if(!pass){ m->j=(int*)hypre_CAlloc(z,4); m->data=(double*)hypre_CAlloc(z,8); } } m->num_nonzeros=z; *(hypre_CSRMatrix**)call[r].out=m; } }
static double sc(int r,double v){ return scaleA[r]==1.0? v : scaleA[r]*v; }
static void matvec(bool T){ hypre_ParCSRMatrix*M[MAXR]; double*in[MAXR]; double*out[MAXR]; for(int r=0;r<nR;r++){ M[r]=mat(r); in[r]=((hypre_ParVector*)call[r].in)->local_vector->data; out[r]=((hypre_ParVector*)call[r].out)->local_vector->data; }
  for(int r=0;r<nR;r++){ int n= T?M[r]->diag->num_cols:M[r]->diag->num_rows; for(int i=0;i<n;i++) out[r][i]= scaleB[r]==0.0? 0.0 : scaleB[r]==1.0? out[r][i] : scaleB[r]*out[r][i]; }
  for(int r=0;r<nR;r++){ auto*D=M[r]->diag; auto*O=M[r]->offd; for(int i=0;i<D->num_rows;i++){ for(int e=D->i[i];e<D->i[i+1];e++){ if(T) out[r][D->j[e]]+=sc(r,D->data[e])*in[r][i]; else out[r][i]+=sc(r,D->data[e])*in[r][D->j[e]]; } for(int e=O->i[i];e<O->i[i+1];e++){ int col=M[r]->col_map_offd[O->j[e]]; int o=owner(M,col); int lc=col-M[o]->first_col_diag; if(T) out[o][lc]+=sc(r,O->data[e])*in[r][i]; else out[r][i]+=sc(r,O->data[e])*in[o][lc]; } } } }
