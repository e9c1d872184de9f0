/* MPI stand-in: the ranks of a communicator are threads of one process, of which exactly one runs at a
 * time; a switch happens only inside an MPI call, to a rank picked by a seeded generator.
 * Every function is renamed by a macro, so that the real libmpi behind libhdf5 is left alone. */
#ifndef VSHIM_MPI_H
#define VSHIM_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

typedef struct vmpi_comm_s* MPI_Comm;
typedef struct vmpi_info_s* MPI_Info;
typedef struct vmpi_req_s* MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef struct vmpi_file_s* MPI_File;
typedef struct vmpi_group_s* MPI_Group;
typedef int MPI_Errhandler;
typedef struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int count_; } MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_FILE_NULL ((MPI_File)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2

#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

enum { VMPI_DT_NULL, VMPI_CHAR, VMPI_SCHAR, VMPI_UCHAR, VMPI_BYTE, VMPI_SHORT, VMPI_INT, VMPI_UINT, VMPI_LONG,
       VMPI_ULONG, VMPI_LLONG, VMPI_ULLONG, VMPI_FLOAT, VMPI_DOUBLE, VMPI_BOOL, VMPI_DOUBLE_INT };
#define MPI_DATATYPE_NULL VMPI_DT_NULL
#define MPI_CHAR VMPI_CHAR
#define MPI_SIGNED_CHAR VMPI_SCHAR
#define MPI_INT8_T VMPI_SCHAR
#define MPI_UNSIGNED_CHAR VMPI_UCHAR
#define MPI_UINT8_T VMPI_UCHAR
#define MPI_BYTE VMPI_BYTE
#define MPI_SHORT VMPI_SHORT
#define MPI_INT VMPI_INT
#define MPI_INT32_T VMPI_INT
#define MPI_UNSIGNED VMPI_UINT
#define MPI_UINT32_T VMPI_UINT
#define MPI_LONG VMPI_LONG
#define MPI_INT64_T VMPI_LONG
#define MPI_UNSIGNED_LONG VMPI_ULONG
#define MPI_UINT64_T VMPI_ULONG
#define MPI_LONG_LONG VMPI_LLONG
#define MPI_LONG_LONG_INT VMPI_LLONG
#define MPI_UNSIGNED_LONG_LONG VMPI_ULLONG
#define MPI_FLOAT VMPI_FLOAT
#define MPI_DOUBLE VMPI_DOUBLE
#define MPI_CXX_BOOL VMPI_BOOL
#define MPI_C_BOOL VMPI_BOOL
#define MPI_DOUBLE_INT VMPI_DOUBLE_INT
#define MPI_AINT VMPI_LONG

enum { VMPI_OP_NULL, VMPI_MAX, VMPI_MIN, VMPI_SUM, VMPI_PROD, VMPI_LAND, VMPI_LOR, VMPI_LXOR, VMPI_BAND, VMPI_BOR, VMPI_MAXLOC, VMPI_MINLOC };
#define MPI_OP_NULL VMPI_OP_NULL
#define MPI_MAX VMPI_MAX
#define MPI_MIN VMPI_MIN
#define MPI_SUM VMPI_SUM
#define MPI_PROD VMPI_PROD
#define MPI_LAND VMPI_LAND
#define MPI_LOR VMPI_LOR
#define MPI_LXOR VMPI_LXOR
#define MPI_BAND VMPI_BAND
#define MPI_BOR VMPI_BOR
#define MPI_MAXLOC VMPI_MAXLOC
#define MPI_MINLOC VMPI_MINLOC

#define VMPI_DECL(ret, name, args) ret vmpi_##name args;
VMPI_DECL(int, Init, (int*, char***))
VMPI_DECL(int, Init_thread, (int*, char***, int, int*))
VMPI_DECL(int, Query_thread, (int*))
VMPI_DECL(int, Initialized, (int*))
VMPI_DECL(int, Finalize, (void))
VMPI_DECL(int, Finalized, (int*))
VMPI_DECL(int, Abort, (MPI_Comm, int))
VMPI_DECL(int, Comm_size, (MPI_Comm, int*))
VMPI_DECL(int, Comm_rank, (MPI_Comm, int*))
VMPI_DECL(int, Comm_free, (MPI_Comm*))
VMPI_DECL(int, Comm_dup, (MPI_Comm, MPI_Comm*))
VMPI_DECL(int, Comm_split, (MPI_Comm, int, int, MPI_Comm*))
VMPI_DECL(int, Comm_compare, (MPI_Comm, MPI_Comm, int*))
VMPI_DECL(int, Comm_set_errhandler, (MPI_Comm, MPI_Errhandler))
VMPI_DECL(int, Dims_create, (int, int, int*))
VMPI_DECL(int, Cart_create, (MPI_Comm, int, int const*, int const*, int, MPI_Comm*))
VMPI_DECL(int, Cart_coords, (MPI_Comm, int, int, int*))
VMPI_DECL(int, Cart_get, (MPI_Comm, int, int*, int*, int*))
VMPI_DECL(int, Cartdim_get, (MPI_Comm, int*))
VMPI_DECL(int, Cart_rank, (MPI_Comm, int const*, int*))
VMPI_DECL(int, Cart_shift, (MPI_Comm, int, int, int*, int*))
VMPI_DECL(int, Cart_sub, (MPI_Comm, int const*, MPI_Comm*))
VMPI_DECL(int, Send, (void const*, int, MPI_Datatype, int, int, MPI_Comm))
VMPI_DECL(int, Recv, (void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*))
VMPI_DECL(int, Isend, (void const*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*))
VMPI_DECL(int, Irecv, (void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*))
VMPI_DECL(int, Wait, (MPI_Request*, MPI_Status*))
VMPI_DECL(int, Waitall, (int, MPI_Request*, MPI_Status*))
VMPI_DECL(int, Sendrecv, (void const*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*))
VMPI_DECL(int, Sendrecv_replace, (void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*))
VMPI_DECL(int, Get_count, (MPI_Status const*, MPI_Datatype, int*))
VMPI_DECL(int, Barrier, (MPI_Comm))
VMPI_DECL(int, Bcast, (void*, int, MPI_Datatype, int, MPI_Comm))
VMPI_DECL(int, Allreduce, (void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm))
VMPI_DECL(int, Reduce, (void const*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm))
VMPI_DECL(int, Scan, (void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm))
VMPI_DECL(int, Exscan, (void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm))
VMPI_DECL(int, Gather, (void const*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm))
VMPI_DECL(int, Allgather, (void const*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm))
VMPI_DECL(int, Scatter, (void const*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm))
VMPI_DECL(int, Type_size, (MPI_Datatype, int*))
VMPI_DECL(int, Get_processor_name, (char*, int*))
VMPI_DECL(int, Error_string, (int, char*, int*))
VMPI_DECL(double, Wtime, (void))
#undef VMPI_DECL

#define MPI_Init vmpi_Init
#define MPI_Init_thread vmpi_Init_thread
#define MPI_Query_thread vmpi_Query_thread
#define MPI_Initialized vmpi_Initialized
#define MPI_Finalize vmpi_Finalize
#define MPI_Finalized vmpi_Finalized
#define MPI_Abort vmpi_Abort
#define MPI_Comm_size vmpi_Comm_size
#define MPI_Comm_rank vmpi_Comm_rank
#define MPI_Comm_free vmpi_Comm_free
#define MPI_Comm_dup vmpi_Comm_dup
#define MPI_Comm_split vmpi_Comm_split
#define MPI_Comm_compare vmpi_Comm_compare
#define MPI_Comm_set_errhandler vmpi_Comm_set_errhandler
#define MPI_Dims_create vmpi_Dims_create
#define MPI_Cart_create vmpi_Cart_create
#define MPI_Cart_coords vmpi_Cart_coords
#define MPI_Cart_get vmpi_Cart_get
#define MPI_Cartdim_get vmpi_Cartdim_get
#define MPI_Cart_rank vmpi_Cart_rank
#define MPI_Cart_shift vmpi_Cart_shift
#define MPI_Cart_sub vmpi_Cart_sub
#define MPI_Send vmpi_Send
#define MPI_Ssend vmpi_Send
#define MPI_Recv vmpi_Recv
#define MPI_Isend vmpi_Isend
#define MPI_Irecv vmpi_Irecv
#define MPI_Wait vmpi_Wait
#define MPI_Waitall vmpi_Waitall
#define MPI_Sendrecv vmpi_Sendrecv
#define MPI_Sendrecv_replace vmpi_Sendrecv_replace
#define MPI_Get_count vmpi_Get_count
#define MPI_Barrier vmpi_Barrier
#define MPI_Bcast vmpi_Bcast
#define MPI_Allreduce vmpi_Allreduce
#define MPI_Reduce vmpi_Reduce
#define MPI_Scan vmpi_Scan
#define MPI_Exscan vmpi_Exscan
#define MPI_Gather vmpi_Gather
#define MPI_Allgather vmpi_Allgather
#define MPI_Scatter vmpi_Scatter
#define MPI_Type_size vmpi_Type_size
#define MPI_Get_processor_name vmpi_Get_processor_name
#define MPI_Error_string vmpi_Error_string
#define MPI_Wtime vmpi_Wtime
#ifdef __cplusplus
}
#endif
#endif
