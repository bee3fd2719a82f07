// Simulated message passing interface: every rank is a fiber of one process, every call is a scheduling point,
// and the schedule, the buffering of messages and the rank reordering of Cartesian communicators are chosen by
// the exploration kernel.  Only <mpi.h>'s C interface is provided.
#ifndef VERIF_FAKE_MPI_H
#define VERIF_FAKE_MPI_H
#include <cstddef>
#include <cstdint>
struct FakeComm; struct FakeReq; struct FakeGroup; struct FakeInfo;
typedef FakeComm *MPI_Comm; typedef FakeReq *MPI_Request; typedef FakeGroup *MPI_Group; typedef FakeInfo *MPI_Info;
typedef int MPI_Datatype; typedef int MPI_Op; typedef long MPI_Aint; typedef long long MPI_Offset;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes; };
enum { MPI_SUCCESS = 0, MPI_ERR_OTHER = 15 };
enum { MPI_ANY_SOURCE = -1, MPI_PROC_NULL = -2, MPI_ANY_TAG = -1, MPI_UNDEFINED = -32766 };
enum { MPI_DATATYPE_NULL = 0, MPI_CHAR = 1, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_C_BOOL };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_INT64_T MPI_LONG
#define MPI_UINT64_T MPI_UNSIGNED_LONG
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)(intptr_t)-1)
#define MPI_MAX_PROCESSOR_NAME 64
MPI_Comm fakempi_world(); MPI_Comm fakempi_self();
#define MPI_COMM_WORLD (fakempi_world())
#define MPI_COMM_SELF (fakempi_self())
int MPI_Init(int *, char ***); int MPI_Finalize(); int MPI_Initialized(int *); int MPI_Finalized(int *); int MPI_Abort(MPI_Comm, int); double MPI_Wtime();
int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_free(MPI_Comm *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_group(MPI_Comm, MPI_Group *); int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *); int MPI_Group_free(MPI_Group *); int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Cart_create(MPI_Comm, int, const int *, const int *, int, MPI_Comm *); int MPI_Cart_coords(MPI_Comm, int, int, int *); int MPI_Cart_shift(MPI_Comm, int, int, int *, int *); int MPI_Cart_rank(MPI_Comm, const int *, int *); int MPI_Cart_get(MPI_Comm, int, int *, int *, int *); int MPI_Dims_create(int, int, int *);
int MPI_Type_size(MPI_Datatype, int *); int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *); int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *); int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Info_create(MPI_Info *); int MPI_Info_set(MPI_Info, const char *, const char *); int MPI_Info_free(MPI_Info *);
#endif
