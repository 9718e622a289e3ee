// Model of the message passing interface: R ranks run as fibers of one program (see hypre.cpp); only what parlinalgcpp calls.
#pragma once
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
#define MPI_COMM_WORLD 0x44000000
#define MPI_INT 1
#define MPI_DOUBLE 2
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_SUCCESS 0
namespace MPI { static const int INT=MPI_INT, DOUBLE=MPI_DOUBLE, SUM=MPI_SUM, MAX=MPI_MAX; }
extern "C" { int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_rank(MPI_Comm,int*); int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Barrier(MPI_Comm); }
