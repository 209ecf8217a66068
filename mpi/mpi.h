/* In-process MPI used by the checks: every rank is a thread, scheduling is
 * controlled by the test engine.  Covers point-to-point, common collectives and
 * communicator queries. */
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct shim_comm* MPI_Comm;
typedef struct shim_req* MPI_Request;
typedef struct shim_group* MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t shim_bytes; } MPI_Status;
typedef int MPI_Errhandler;
typedef int MPI_Info;

extern struct shim_comm shim_world, shim_self;
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD (&shim_world)
#define MPI_COMM_SELF (&shim_self)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_TAG_UB 1
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

enum { MPI_DATATYPE_NULL = 0, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT,
  MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG,
  MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_INT8_T, MPI_UINT8_T, MPI_INT16_T, MPI_UINT16_T,
  MPI_INT32_T, MPI_UINT32_T, MPI_INT64_T, MPI_UINT64_T, MPI_C_BOOL, MPI_2INT, MPI_AINT, MPI_OFFSET,
  MPI_PACKED };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_OP_NULL = 0, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR,
  MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC };

int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
