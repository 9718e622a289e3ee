// Model of the part of hypre 2.10 that parlinalgcpp uses: the structures with hypre's member names, and functions with hypre's contracts.
#pragma once
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <numeric>
#include <vector>
#include <cassert>
#include "mpi.h"
#define HYPRE_NO_GLOBAL_PARTITION 1
typedef int HYPRE_Int; typedef double HYPRE_Real; typedef double HYPRE_Complex;
typedef struct { HYPRE_Complex*data; HYPRE_Int size; HYPRE_Int owns_data; HYPRE_Int num_vectors; } hypre_Vector;
typedef struct { HYPRE_Complex*data; HYPRE_Int*i; HYPRE_Int*j; HYPRE_Int num_rows,num_cols,num_nonzeros; HYPRE_Int*rownnz; HYPRE_Int num_rownnz,owns_data; } hypre_CSRMatrix;
typedef struct hypre_ParVector_struct { MPI_Comm comm; HYPRE_Int global_size,first_index,last_index; HYPRE_Int*partitioning; HYPRE_Int actual_local_size; hypre_Vector*local_vector; HYPRE_Int owns_data,owns_partitioning; } hypre_ParVector;
typedef struct { MPI_Comm comm; HYPRE_Int num_sends; HYPRE_Int*send_procs,*send_map_starts,*send_map_elmts; HYPRE_Int num_recvs; HYPRE_Int*recv_procs,*recv_vec_starts; } hypre_ParCSRCommPkg;
typedef struct { hypre_ParCSRCommPkg*comm_pkg; HYPRE_Int job; void*send_data,*recv_data; } hypre_ParCSRCommHandle;
typedef struct hypre_ParCSRMatrix_struct { MPI_Comm comm; HYPRE_Int global_num_rows,global_num_cols,first_row_index,first_col_diag,last_row_index,last_col_diag; hypre_CSRMatrix*diag,*offd; HYPRE_Int*col_map_offd,*row_starts,*col_starts; hypre_ParCSRCommPkg*comm_pkg; HYPRE_Int owns_data,owns_row_starts,owns_col_starts,num_nonzeros; } hypre_ParCSRMatrix;
typedef struct hypre_ParCSRMatrix_struct*HYPRE_ParCSRMatrix; typedef struct hypre_ParVector_struct*HYPRE_ParVector; struct hypre_Solver_struct; typedef struct hypre_Solver_struct*HYPRE_Solver; struct hypre_Matrix_struct; typedef struct hypre_Matrix_struct*HYPRE_Matrix; struct hypre_Vector_struct; typedef struct hypre_Vector_struct*HYPRE_Vector;
typedef HYPRE_Int (*HYPRE_PtrToSolverFcn)(HYPRE_Solver,HYPRE_Matrix,HYPRE_Vector,HYPRE_Vector); typedef HYPRE_Int (*HYPRE_PtrToParSolverFcn)(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector);
#define hypre_VectorData(v) ((v)->data)
#define hypre_VectorSize(v) ((v)->size)
#define hypre_ParVectorLocalVector(v) ((v)->local_vector)
#define hypre_CSRMatrixData(m) ((m)->data)
#define hypre_CSRMatrixI(m) ((m)->i)
#define hypre_CSRMatrixJ(m) ((m)->j)
#define hypre_CSRMatrixNumRows(m) ((m)->num_rows)
#define hypre_CSRMatrixNumCols(m) ((m)->num_cols)
#define hypre_CSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_CSRMatrixRownnz(m) ((m)->rownnz)
#define hypre_CSRMatrixOwnsData(m) ((m)->owns_data)
#define hypre_ParCSRMatrixComm(m) ((m)->comm)
#define hypre_ParCSRMatrixGlobalNumRows(m) ((m)->global_num_rows)
#define hypre_ParCSRMatrixGlobalNumCols(m) ((m)->global_num_cols)
#define hypre_ParCSRMatrixFirstRowIndex(m) ((m)->first_row_index)
#define hypre_ParCSRMatrixFirstColDiag(m) ((m)->first_col_diag)
#define hypre_ParCSRMatrixLastRowIndex(m) ((m)->last_row_index)
#define hypre_ParCSRMatrixLastColDiag(m) ((m)->last_col_diag)
#define hypre_ParCSRMatrixDiag(m) ((m)->diag)
#define hypre_ParCSRMatrixOffd(m) ((m)->offd)
#define hypre_ParCSRMatrixColMapOffd(m) ((m)->col_map_offd)
#define hypre_ParCSRMatrixRowStarts(m) ((m)->row_starts)
#define hypre_ParCSRMatrixColStarts(m) ((m)->col_starts)
#define hypre_ParCSRMatrixCommPkg(m) ((m)->comm_pkg)
#define hypre_ParCSRMatrixOwnsData(m) ((m)->owns_data)
#define hypre_ParCSRMatrixOwnsRowStarts(m) ((m)->owns_row_starts)
#define hypre_ParCSRMatrixOwnsColStarts(m) ((m)->owns_col_starts)
#define hypre_ParCSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_ParCSRMatrixNumRows(m) ((m)->diag->num_rows)
#define hypre_ParCSRMatrixNumCols(m) ((m)->diag->num_cols)
#define hypre_ParCSRCommPkgComm(p) ((p)->comm)
#define hypre_ParCSRCommPkgNumSends(p) ((p)->num_sends)
#define hypre_ParCSRCommPkgSendProcs(p) ((p)->send_procs)
#define hypre_ParCSRCommPkgSendMapStarts(p) ((p)->send_map_starts)
#define hypre_ParCSRCommPkgSendMapElmts(p) ((p)->send_map_elmts)
#define hypre_ParCSRCommPkgNumRecvs(p) ((p)->num_recvs)
#define hypre_ParCSRCommPkgRecvProcs(p) ((p)->recv_procs)
#define hypre_ParCSRCommPkgRecvVecStarts(p) ((p)->recv_vec_starts)
extern "C" {
char*hypre_CAlloc(size_t,size_t); void hypre_Free(char*); HYPRE_Int hypre_NumThreads(); HYPRE_Int hypre_NumActiveThreads(); HYPRE_Int hypre_GetThreadNum(); HYPRE_Int hypre_MPI_Comm_size(MPI_Comm,HYPRE_Int*); HYPRE_Int hypre_MPI_Comm_rank(MPI_Comm,HYPRE_Int*); HYPRE_Int hypre_BinarySearch(HYPRE_Int*,HYPRE_Int,HYPRE_Int); HYPRE_Int HYPRE_AssumedPartitionCheck();
extern HYPRE_Int hypre__global_error; void hypre_error_in_arg_f(HYPRE_Int);
hypre_ParVector*hypre_ParVectorCreate(MPI_Comm,HYPRE_Int,HYPRE_Int*); HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector*); HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector*); HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector*,HYPRE_Int); HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector*,HYPRE_Int); HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector*,HYPRE_Int);
hypre_ParCSRMatrix*hypre_ParCSRMatrixCreate(MPI_Comm,HYPRE_Int,HYPRE_Int,HYPRE_Int*,HYPRE_Int*,HYPRE_Int,HYPRE_Int,HYPRE_Int); HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix*); HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix*); HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix*); HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix*); HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix*); HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg*); hypre_ParCSRCommHandle*hypre_ParCSRCommHandleCreate(HYPRE_Int,hypre_ParCSRCommPkg*,void*,void*); HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle*); hypre_CSRMatrix*hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix*,hypre_ParCSRMatrix*,HYPRE_Int);
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex,hypre_ParCSRMatrix*,hypre_ParVector*,HYPRE_Complex,hypre_ParVector*); HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex,hypre_ParCSRMatrix*,hypre_ParVector*,HYPRE_Complex,hypre_ParVector*);
HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix*,hypre_ParVector*,HYPRE_Int,HYPRE_Int,HYPRE_Real*,HYPRE_Real,HYPRE_Real,HYPRE_Real,HYPRE_Real,HYPRE_Int,HYPRE_Real,hypre_ParVector*,hypre_ParVector*,hypre_ParVector*);
HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver*); HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver); HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector); HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector);
HYPRE_Int HYPRE_BoomerAMGSetCoarsenType(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetAggNumLevels(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetRelaxType(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetNumSweeps(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetStrongThreshold(HYPRE_Solver,HYPRE_Real); HYPRE_Int HYPRE_BoomerAMGSetInterpType(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetPMaxElmts(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetMaxLevels(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetPrintLevel(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetMaxIter(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_BoomerAMGSetTol(HYPRE_Solver,HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm,HYPRE_Solver*); HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver); HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector); HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector); HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver,HYPRE_Real,HYPRE_Int); HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver,HYPRE_Real); HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver,HYPRE_Real); HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver,HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm,HYPRE_Solver*); HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver); HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector); HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector); HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver,HYPRE_PtrToParSolverFcn,HYPRE_PtrToParSolverFcn,HYPRE_Solver); HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver,HYPRE_Real); HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver,HYPRE_Int);
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector); HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver,HYPRE_ParCSRMatrix,HYPRE_ParVector,HYPRE_ParVector);
typedef struct { int model; } mv_InterfaceInterpreter; typedef struct { void*(*MatvecCreate)(void*,void*); HYPRE_Int(*Matvec)(void*,HYPRE_Complex,void*,void*,HYPRE_Complex,void*); HYPRE_Int(*MatvecDestroy)(void*); } HYPRE_MatvecFunctions; typedef struct mv_MultiVector*mv_MultiVectorPtr; typedef struct { long numVectors; HYPRE_Int*mask; void**vector; HYPRE_Int ownsVectors,ownsMask; mv_InterfaceInterpreter*interpreter; } mv_TempMultiVector;
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*); HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions*); HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*,HYPRE_MatvecFunctions*,HYPRE_Solver*); HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver); HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver,HYPRE_Matrix,HYPRE_Vector,HYPRE_Vector); HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver,HYPRE_PtrToSolverFcn,HYPRE_PtrToSolverFcn,HYPRE_Solver); HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver,HYPRE_Int); HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver,mv_MultiVectorPtr,mv_MultiVectorPtr,HYPRE_Real*); mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void*,HYPRE_Int,void*); void mv_MultiVectorDestroy(mv_MultiVectorPtr); void*mv_MultiVectorGetData(mv_MultiVectorPtr);
}
#define hypre_CTAlloc(type,count) ((type*)hypre_CAlloc((size_t)(count),sizeof(type)))
#define hypre_TFree(ptr) (hypre_Free((char*)(ptr)),(ptr)=NULL)
#define hypre_error_in_arg(n) hypre_error_in_arg_f(n)
#define hypre_error_flag hypre__global_error
