/* A message passing library for checks: standard mode, one communicator, adversarial delays (see fake_mpi.cpp). */
#ifndef FAKE_MPI_H
#define FAKE_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;   /* kind * 16 + size */
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int bytes; } MPI_Status;
#define MPI_COMM_WORLD 0
#define MPI_SUCCESS 0
#define MPI_REQUEST_NULL (-1)
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_UNDEFINED (-32766)
#define MPI_BYTE (1 * 16 + 1)
#define MPI_CHAR (2 * 16 + 1)
#define MPI_UNSIGNED_CHAR (3 * 16 + 1)
#define MPI_SHORT (4 * 16 + 2)
#define MPI_INT (5 * 16 + 4)
#define MPI_UNSIGNED (6 * 16 + 4)
#define MPI_LONG (7 * 16 + 8)
#define MPI_UNSIGNED_LONG (8 * 16 + 8)
#define MPI_LONG_LONG (9 * 16 + 8)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG (10 * 16 + 8)
#define MPI_INT16_T (11 * 16 + 2)
#define MPI_INT32_T (12 * 16 + 4)
#define MPI_INT64_T (13 * 16 + 8)
#define MPI_UINT32_T (14 * 16 + 4)
#define MPI_UINT64_T (15 * 16 + 8)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
