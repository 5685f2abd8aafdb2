/* MPI interface of the symbolic MPI model. */
#ifndef VP_MPI_H
#define VP_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Fint; typedef int MPI_Info; typedef int MPI_Errhandler; typedef int MPI_Win; typedef int MPI_File;
typedef long MPI_Aint; typedef long long MPI_Offset;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, _count; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_GROUP_EMPTY 0
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_SUCCESS 0
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
/* datatype = kind*16 + size */
#define MPI_BYTE (1*16+1)
#define MPI_CHAR (2*16+1)
#define MPI_INT (3*16+4)
#define MPI_UNSIGNED (4*16+4)
#define MPI_LONG (5*16+8)
#define MPI_LONG_LONG (6*16+8)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_INT64_T MPI_LONG_LONG
#define MPI_UNSIGNED_LONG (7*16+8)
#define MPI_FLOAT (8*16+4)
#define MPI_DOUBLE (9*16+8)
#define MPI_SHORT (10*16+2)
#define MPI_UNSIGNED_CHAR (11*16+1)
#define MPI_INT32_T MPI_INT
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_LOR 4
#define MPI_LAND 5
#define MPI_PROD 6
#define MPI_BOR 7
#define MPI_BAND 8
#define MPI_VERSION 3
#define MPI_MAX_PROCESSOR_NAME 64
int MPI_Init(int *, char ***); int MPI_Initialized(int *); int MPI_Finalize(void); int MPI_Finalized(int *); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_group(MPI_Comm, MPI_Group *); int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *); int MPI_Group_free(MPI_Group *); int MPI_Group_size(MPI_Group, int *); int MPI_Group_rank(MPI_Group, int *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *); int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Type_size(MPI_Datatype, int *); double MPI_Wtime(void); int MPI_Get_processor_name(char *, int *);
#ifdef __cplusplus
}
#endif
#endif
