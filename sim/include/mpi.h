/* simmpi: a strict, hostile, deterministic MPI used by /verif's runtime monitors. */
#ifndef SIMMPI_MPI_H
#define SIMMPI_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#if defined(SIM_OMPI)
#define OPEN_MPI 1
#define OMPI_MAJOR_VERSION SIM_OMPI
#define OMPI_MINOR_VERSION 1
#define OMPI_RELEASE_VERSION 6
#elif defined(SIM_MPICH)
#define MPICH_VERSION "4.2.0"
#define MPICH_NUMVERSION 40200300
#define MPICH 1
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

typedef intptr_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct simmpi_comm_s  *MPI_Comm;
typedef struct simmpi_group_s *MPI_Group;
typedef struct simmpi_dt_s    *MPI_Datatype;
typedef struct simmpi_op_s    *MPI_Op;
typedef struct simmpi_win_s   *MPI_Win;
typedef struct simmpi_req_s   *MPI_Request;
typedef struct simmpi_info_s  *MPI_Info;
typedef struct simmpi_errh_s  *MPI_Errhandler;
typedef struct simmpi_msg_s   *MPI_Message;

typedef struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  long long sim_bytes; int sim_cancelled;
} MPI_Status;

#define MPI_COMM_NULL     ((MPI_Comm)0)
#define MPI_GROUP_NULL    ((MPI_Group)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL       ((MPI_Op)0)
#define MPI_WIN_NULL      ((MPI_Win)0)
#define MPI_REQUEST_NULL  ((MPI_Request)0)
#define MPI_INFO_NULL     ((MPI_Info)0)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler)0)
#define MPI_MESSAGE_NULL  ((MPI_Message)0)

#define MPI_STATUS_IGNORE   ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_ERRCODES_IGNORE ((int *)0)
#define MPI_BOTTOM   ((void *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_UNWEIGHTED ((int*)2)

#define MPI_PROC_NULL  (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG    (-1)
#define MPI_ROOT       (-4)
#define MPI_UNDEFINED  (-32766)
#define MPI_KEYVAL_INVALID (-1)
#define MPI_TAG_UB_VALUE 2147483647

#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_INFO_KEY 36
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_PORT_NAME 1024

enum { MPI_SUCCESS = 0, MPI_ERR_BUFFER, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG, MPI_ERR_COMM, MPI_ERR_RANK,
  MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_GROUP, MPI_ERR_OP, MPI_ERR_TOPOLOGY, MPI_ERR_DIMS, MPI_ERR_ARG,
  MPI_ERR_UNKNOWN, MPI_ERR_TRUNCATE, MPI_ERR_OTHER, MPI_ERR_INTERN, MPI_ERR_IN_STATUS, MPI_ERR_PENDING,
  MPI_ERR_WIN, MPI_ERR_BASE, MPI_ERR_SIZE, MPI_ERR_DISP, MPI_ERR_INFO, MPI_ERR_LOCKTYPE, MPI_ERR_ASSERT,
  MPI_ERR_RMA_CONFLICT, MPI_ERR_RMA_SYNC, MPI_ERR_NO_MEM, MPI_ERR_KEYVAL, MPI_ERR_RMA_RANGE, MPI_ERR_RMA_ATTACH,
  MPI_ERR_RMA_SHARED, MPI_ERR_RMA_FLAVOR, MPI_ERR_INFO_KEY, MPI_ERR_INFO_VALUE, MPI_ERR_INFO_NOKEY, MPI_ERR_LASTCODE = 100 };

enum { MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_IDENT = 0, MPI_CONGRUENT, MPI_SIMILAR, MPI_UNEQUAL };
enum { MPI_LOCK_EXCLUSIVE = 1, MPI_LOCK_SHARED = 2 };
#define MPI_MODE_NOCHECK   1
#define MPI_MODE_NOPRECEDE 2
#define MPI_MODE_NOPUT     4
#define MPI_MODE_NOSTORE   8
#define MPI_MODE_NOSUCCEED 16

enum { MPI_TAG_UB = 1, MPI_HOST, MPI_IO, MPI_WTIME_IS_GLOBAL, MPI_UNIVERSE_SIZE, MPI_LASTUSEDCODE, MPI_APPNUM,
  MPI_WIN_BASE, MPI_WIN_SIZE, MPI_WIN_DISP_UNIT, MPI_WIN_CREATE_FLAVOR, MPI_WIN_MODEL };
enum { MPI_WIN_FLAVOR_CREATE = 1, MPI_WIN_FLAVOR_ALLOCATE, MPI_WIN_FLAVOR_DYNAMIC, MPI_WIN_FLAVOR_SHARED };
enum { MPI_WIN_SEPARATE = 1, MPI_WIN_UNIFIED = 2 };
enum { MPI_ORDER_C = 56, MPI_ORDER_FORTRAN = 57 };
enum { MPI_COMM_TYPE_SHARED = 1 };
enum { MPI_COMBINER_NAMED = 1, MPI_COMBINER_DUP, MPI_COMBINER_CONTIGUOUS, MPI_COMBINER_VECTOR };

extern struct simmpi_comm_s simmpi_comm_world, simmpi_comm_self;
#define MPI_COMM_WORLD (&simmpi_comm_world)
#define MPI_COMM_SELF  (&simmpi_comm_self)
extern struct simmpi_group_s simmpi_group_empty;
#define MPI_GROUP_EMPTY (&simmpi_group_empty)
extern struct simmpi_errh_s simmpi_errh0, simmpi_errh1, simmpi_errh2;
#define MPI_ERRORS_ARE_FATAL (&simmpi_errh0)
#define MPI_ERRORS_RETURN    (&simmpi_errh1)
#define MPI_ERRORS_ABORT     (&simmpi_errh2)

#define SIMMPI_TYPES(X) \
  X(MPI_CHAR, char, 1) X(MPI_SIGNED_CHAR, signed char, 2) X(MPI_UNSIGNED_CHAR, unsigned char, 3) X(MPI_BYTE, unsigned char, 4) \
  X(MPI_SHORT, short, 5) X(MPI_UNSIGNED_SHORT, unsigned short, 6) X(MPI_INT, int, 7) X(MPI_UNSIGNED, unsigned, 8) \
  X(MPI_LONG, long, 9) X(MPI_UNSIGNED_LONG, unsigned long, 10) X(MPI_FLOAT, float, 11) X(MPI_DOUBLE, double, 12) \
  X(MPI_LONG_DOUBLE, long double, 13) X(MPI_LONG_LONG_INT, long long, 14) X(MPI_UNSIGNED_LONG_LONG, unsigned long long, 15) \
  X(MPI_INT8_T, int8_t, 16) X(MPI_INT16_T, int16_t, 17) X(MPI_INT32_T, int32_t, 18) X(MPI_INT64_T, int64_t, 19) \
  X(MPI_UINT8_T, uint8_t, 20) X(MPI_UINT16_T, uint16_t, 21) X(MPI_UINT32_T, uint32_t, 22) X(MPI_UINT64_T, uint64_t, 23) \
  X(MPI_AINT, intptr_t, 24) X(MPI_COUNT, long long, 25) X(MPI_OFFSET, long long, 26) X(MPI_C_BOOL, unsigned char, 27) \
  X(MPI_C_FLOAT_COMPLEX, simmpi_cflt, 28) X(MPI_C_DOUBLE_COMPLEX, simmpi_cdbl, 29) X(MPI_WCHAR, int, 30) \
  X(MPI_COMPLEX, simmpi_cflt, 31) X(MPI_DOUBLE_COMPLEX, simmpi_cdbl, 32) X(MPI_INTEGER, int, 33) X(MPI_REAL, float, 34) \
  X(MPI_DOUBLE_PRECISION, double, 35) X(MPI_2INT, simmpi_2int, 36) X(MPI_DOUBLE_INT, simmpi_dblint, 37) X(MPI_PACKED, unsigned char, 38)
#define SIMMPI_NTYPES 40
extern struct simmpi_dt_s simmpi_dt_1, simmpi_dt_2, simmpi_dt_3, simmpi_dt_4, simmpi_dt_5, simmpi_dt_6, simmpi_dt_7, simmpi_dt_8, simmpi_dt_9, simmpi_dt_10, simmpi_dt_11, simmpi_dt_12, simmpi_dt_13, simmpi_dt_14, simmpi_dt_15, simmpi_dt_16, simmpi_dt_17, simmpi_dt_18, simmpi_dt_19, simmpi_dt_20, simmpi_dt_21, simmpi_dt_22, simmpi_dt_23, simmpi_dt_24, simmpi_dt_25, simmpi_dt_26, simmpi_dt_27, simmpi_dt_28, simmpi_dt_29, simmpi_dt_30, simmpi_dt_31, simmpi_dt_32, simmpi_dt_33, simmpi_dt_34, simmpi_dt_35, simmpi_dt_36, simmpi_dt_37, simmpi_dt_38;
#define MPI_CHAR               (&simmpi_dt_1)
#define MPI_SIGNED_CHAR        (&simmpi_dt_2)
#define MPI_UNSIGNED_CHAR      (&simmpi_dt_3)
#define MPI_BYTE               (&simmpi_dt_4)
#define MPI_SHORT              (&simmpi_dt_5)
#define MPI_UNSIGNED_SHORT     (&simmpi_dt_6)
#define MPI_INT                (&simmpi_dt_7)
#define MPI_UNSIGNED           (&simmpi_dt_8)
#define MPI_LONG               (&simmpi_dt_9)
#define MPI_UNSIGNED_LONG      (&simmpi_dt_10)
#define MPI_FLOAT              (&simmpi_dt_11)
#define MPI_DOUBLE             (&simmpi_dt_12)
#define MPI_LONG_DOUBLE        (&simmpi_dt_13)
#define MPI_LONG_LONG_INT      (&simmpi_dt_14)
#define MPI_LONG_LONG          MPI_LONG_LONG_INT
#define MPI_UNSIGNED_LONG_LONG (&simmpi_dt_15)
#define MPI_INT8_T             (&simmpi_dt_16)
#define MPI_INT16_T            (&simmpi_dt_17)
#define MPI_INT32_T            (&simmpi_dt_18)
#define MPI_INT64_T            (&simmpi_dt_19)
#define MPI_UINT8_T            (&simmpi_dt_20)
#define MPI_UINT16_T           (&simmpi_dt_21)
#define MPI_UINT32_T           (&simmpi_dt_22)
#define MPI_UINT64_T           (&simmpi_dt_23)
#define MPI_AINT               (&simmpi_dt_24)
#define MPI_COUNT              (&simmpi_dt_25)
#define MPI_OFFSET             (&simmpi_dt_26)
#define MPI_C_BOOL             (&simmpi_dt_27)
#define MPI_C_FLOAT_COMPLEX    (&simmpi_dt_28)
#define MPI_C_COMPLEX          MPI_C_FLOAT_COMPLEX
#define MPI_C_DOUBLE_COMPLEX   (&simmpi_dt_29)
#define MPI_WCHAR              (&simmpi_dt_30)
#define MPI_COMPLEX            (&simmpi_dt_31)
#define MPI_DOUBLE_COMPLEX     (&simmpi_dt_32)
#define MPI_CXX_FLOAT_COMPLEX  MPI_C_FLOAT_COMPLEX
#define MPI_CXX_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_INTEGER            (&simmpi_dt_33)
#define MPI_REAL               (&simmpi_dt_34)
#define MPI_DOUBLE_PRECISION   (&simmpi_dt_35)
#define MPI_2INT               (&simmpi_dt_36)
#define MPI_DOUBLE_INT         (&simmpi_dt_37)
#define MPI_PACKED             (&simmpi_dt_38)

#define SIMMPI_NOPS 16
extern struct simmpi_op_s simmpi_op_1, simmpi_op_2, simmpi_op_3, simmpi_op_4, simmpi_op_5, simmpi_op_6, simmpi_op_7, simmpi_op_8, simmpi_op_9, simmpi_op_10, simmpi_op_11, simmpi_op_12, simmpi_op_13, simmpi_op_14;
#define MPI_MAX     (&simmpi_op_1)
#define MPI_MIN     (&simmpi_op_2)
#define MPI_SUM     (&simmpi_op_3)
#define MPI_PROD    (&simmpi_op_4)
#define MPI_LAND    (&simmpi_op_5)
#define MPI_BAND    (&simmpi_op_6)
#define MPI_LOR     (&simmpi_op_7)
#define MPI_BOR     (&simmpi_op_8)
#define MPI_LXOR    (&simmpi_op_9)
#define MPI_BXOR    (&simmpi_op_10)
#define MPI_MAXLOC  (&simmpi_op_11)
#define MPI_MINLOC  (&simmpi_op_12)
#define MPI_REPLACE (&simmpi_op_13)
#define MPI_NO_OP   (&simmpi_op_14)

typedef void MPI_User_function(void *, void *, int *, MPI_Datatype *);
typedef void MPI_Comm_errhandler_function(MPI_Comm *, int *, ...);
typedef void MPI_Win_errhandler_function(MPI_Win *, int *, ...);
typedef int MPI_Comm_copy_attr_function(MPI_Comm, int, void *, void *, void *, int *);
typedef int MPI_Comm_delete_attr_function(MPI_Comm, int, void *, void *);
typedef int MPI_Win_copy_attr_function(MPI_Win, int, void *, void *, void *, int *);
typedef int MPI_Win_delete_attr_function(MPI_Win, int, void *, void *);
#define MPI_COMM_NULL_COPY_FN ((MPI_Comm_copy_attr_function*)0)
#define MPI_COMM_NULL_DELETE_FN ((MPI_Comm_delete_attr_function*)0)

/* environment */
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *); int MPI_Finalized(int *); int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int); int MPI_Query_thread(int *); int MPI_Is_thread_main(int *);
double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Get_version(int *, int *); int MPI_Get_library_version(char *, int *);
int MPI_Get_processor_name(char *, int *); int MPI_Get_address(const void *, MPI_Aint *);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint); MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);
int MPI_Error_string(int, char *, int *); int MPI_Error_class(int, int *);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void *); int MPI_Free_mem(void *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *);
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler); int MPI_Errhandler_free(MPI_Errhandler *);
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *);
int MPI_Pcontrol(const int, ...);

/* info */
int MPI_Info_create(MPI_Info *); int MPI_Info_free(MPI_Info *); int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_get(MPI_Info, const char *, int, char *, int *); int MPI_Info_dup(MPI_Info, MPI_Info *);
int MPI_Info_delete(MPI_Info, const char *); int MPI_Info_get_nkeys(MPI_Info, int *); int MPI_Info_get_nthkey(MPI_Info, int, char *);
int MPI_Info_get_valuelen(MPI_Info, const char *, int *, int *);

/* groups and communicators */
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_remote_size(MPI_Comm, int *);
int MPI_Comm_test_inter(MPI_Comm, int *); int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_dup_with_info(MPI_Comm, MPI_Info, MPI_Comm *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *); int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *); int MPI_Comm_group(MPI_Comm, MPI_Group *); int MPI_Comm_remote_group(MPI_Comm, MPI_Group *);
int MPI_Intercomm_create(MPI_Comm, int, MPI_Comm, int, int, MPI_Comm *); int MPI_Intercomm_merge(MPI_Comm, int, MPI_Comm *);
int MPI_Comm_set_name(MPI_Comm, const char *); int MPI_Comm_get_name(MPI_Comm, char *, int *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *); int MPI_Comm_set_attr(MPI_Comm, int, void *); int MPI_Comm_delete_attr(MPI_Comm, int);
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *, void *); int MPI_Comm_free_keyval(int *);
int MPI_Comm_set_info(MPI_Comm, MPI_Info); int MPI_Comm_get_info(MPI_Comm, MPI_Info *);
int MPI_Group_size(MPI_Group, int *); int MPI_Group_rank(MPI_Group, int *); int MPI_Group_free(MPI_Group *);
int MPI_Group_translate_ranks(MPI_Group, int, const int *, MPI_Group, int *); int MPI_Group_compare(MPI_Group, MPI_Group, int *);
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *); int MPI_Group_excl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group *); int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group *); int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_range_incl(MPI_Group, int, int [][3], MPI_Group *); int MPI_Group_range_excl(MPI_Group, int, int [][3], MPI_Group *); int MPI_Comm_idup(MPI_Comm, MPI_Comm *, MPI_Request *); int MPI_Comm_call_errhandler(MPI_Comm, int); int MPI_Win_create_errhandler(MPI_Win_errhandler_function *, MPI_Errhandler *);

/* datatypes */
int MPI_Type_size(MPI_Datatype, int *); int MPI_Type_size_x(MPI_Datatype, MPI_Count *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *); int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_get_extent_x(MPI_Datatype, MPI_Count *, MPI_Count *); int MPI_Type_get_true_extent_x(MPI_Datatype, MPI_Count *, MPI_Count *);
int MPI_Type_commit(MPI_Datatype *); int MPI_Type_free(MPI_Datatype *); int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *); int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_indexed(int, const int *, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed(int, const int *, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_indexed_block(int, int, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_create_subarray(int, const int *, const int *, const int *, int, MPI_Datatype, MPI_Datatype *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *); int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);
int MPI_Type_set_name(MPI_Datatype, const char *); int MPI_Type_get_name(MPI_Datatype, char *, int *);
int MPI_Pack(const void *, int, MPI_Datatype, void *, int, int *, MPI_Comm); int MPI_Unpack(const void *, int, int *, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int *);

/* ops */
int MPI_Op_create(MPI_User_function *, int, MPI_Op *); int MPI_Op_free(MPI_Op *); int MPI_Op_commutative(MPI_Op, int *);
int MPI_Reduce_local(const void *, void *, int, MPI_Datatype, MPI_Op);

/* point to point */
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *); int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *); int MPI_Testsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Request_free(MPI_Request *); int MPI_Cancel(MPI_Request *); int MPI_Test_cancelled(const MPI_Status *, int *); int MPI_Request_get_status(MPI_Request, int *, MPI_Status *);

int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message *, MPI_Status *); int MPI_Improbe(int, int, MPI_Comm, int *, MPI_Message *, MPI_Status *); int MPI_Mrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Status *);

/* collectives */
int MPI_Barrier(MPI_Comm); int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ireduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request *); int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Reduce_scatter(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);

/* RMA */
int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *); int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_allocate_shared(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *); int MPI_Win_shared_query(MPI_Win, int, MPI_Aint *, int *, void *);
int MPI_Win_free(MPI_Win *); int MPI_Win_get_attr(MPI_Win, int, void *, int *); int MPI_Win_get_group(MPI_Win, MPI_Group *);
int MPI_Win_set_info(MPI_Win, MPI_Info); int MPI_Win_get_info(MPI_Win, MPI_Info *); int MPI_Win_set_name(MPI_Win, const char *);
int MPI_Win_lock(int, int, int, MPI_Win); int MPI_Win_unlock(int, MPI_Win); int MPI_Win_lock_all(int, MPI_Win); int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win); int MPI_Win_flush_all(MPI_Win); int MPI_Win_flush_local(int, MPI_Win); int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win); int MPI_Win_fence(int, MPI_Win);
int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win); int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win);
int MPI_Rput(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *); int MPI_Rget(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Raccumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);
int MPI_Rget_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);

#ifdef __cplusplus
}
#endif
#endif
