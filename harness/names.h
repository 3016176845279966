// generated by tools/gen_names.py: every user call goes through these, so that it is counted and can use either name
#pragma once
extern "C" { void parmci_msg_barrier(void); void parmci_msg_group_barrier(ARMCI_Group *); void armci_msg_barrier(void); void armci_msg_group_barrier(ARMCI_Group *); }
#define NAMES_N 62
extern int names_use_p; extern struct NamesShm { long user[NAMES_N], tool[NAMES_N], bytes[NAMES_N]; } *NM; extern const char *NAMES[NAMES_N];
static inline void names_user(int i, long b) { if (NM) { __atomic_fetch_add(&NM->user[i], 1, __ATOMIC_RELAXED); __atomic_fetch_add(&NM->bytes[i], b, __ATOMIC_RELAXED); } }
static inline long names_strided(int *c, int l) { long s = 1; for (int i = 0; i <= l; i++) s *= c[i]; return s; }
static inline long names_vector(armci_giov_t *v, int n) { long s = 0; for (int i = 0; i < n; i++) s += (long)v[i].bytes * v[i].ptr_array_len; return s; }
static inline int u_ARMCI_Init(void) { names_user(0, 0); return names_use_p ? PARMCI_Init() : ARMCI_Init(); }
#define ARMCI_Init u_ARMCI_Init
static inline int u_ARMCI_Init_args(int * a0, char *** a1) { names_user(1, 0); return names_use_p ? PARMCI_Init_args(a0, a1) : ARMCI_Init_args(a0, a1); }
#define ARMCI_Init_args u_ARMCI_Init_args
static inline int u_ARMCI_Init_thread(int a0) { names_user(2, 0); return names_use_p ? PARMCI_Init_thread(a0) : ARMCI_Init_thread(a0); }
#define ARMCI_Init_thread u_ARMCI_Init_thread
static inline int u_ARMCI_Init_thread_comm(int a0, MPI_Comm a1) { names_user(3, 0); return names_use_p ? PARMCI_Init_thread_comm(a0, a1) : ARMCI_Init_thread_comm(a0, a1); }
#define ARMCI_Init_thread_comm u_ARMCI_Init_thread_comm
static inline int u_ARMCI_Init_mpi_comm(MPI_Comm a0) { names_user(4, 0); return names_use_p ? PARMCI_Init_mpi_comm(a0) : ARMCI_Init_mpi_comm(a0); }
#define ARMCI_Init_mpi_comm u_ARMCI_Init_mpi_comm
static inline int u_ARMCI_Initialized(void) { names_user(5, 0); return names_use_p ? PARMCI_Initialized() : ARMCI_Initialized(); }
#define ARMCI_Initialized u_ARMCI_Initialized
static inline int u_ARMCI_Finalize(void) { names_user(6, 0); return names_use_p ? PARMCI_Finalize() : ARMCI_Finalize(); }
#define ARMCI_Finalize u_ARMCI_Finalize
static inline int u_ARMCI_Malloc(void ** a0, armci_size_t a1) { names_user(7, a1); return names_use_p ? PARMCI_Malloc(a0, a1) : ARMCI_Malloc(a0, a1); }
#define ARMCI_Malloc u_ARMCI_Malloc
static inline int u_ARMCI_Free(void * a0) { names_user(8, 0); return names_use_p ? PARMCI_Free(a0) : ARMCI_Free(a0); }
#define ARMCI_Free u_ARMCI_Free
static inline void * u_ARMCI_Malloc_local(armci_size_t a0) { names_user(9, a0); return names_use_p ? PARMCI_Malloc_local(a0) : ARMCI_Malloc_local(a0); }
#define ARMCI_Malloc_local u_ARMCI_Malloc_local
static inline int u_ARMCI_Free_local(void * a0) { names_user(10, 0); return names_use_p ? PARMCI_Free_local(a0) : ARMCI_Free_local(a0); }
#define ARMCI_Free_local u_ARMCI_Free_local
static inline void u_ARMCI_Barrier(void) { names_user(11, 0); if (names_use_p) PARMCI_Barrier(); else ARMCI_Barrier(); }
#define ARMCI_Barrier u_ARMCI_Barrier
static inline void u_ARMCI_Fence(int a0) { names_user(12, 0); if (names_use_p) PARMCI_Fence(a0); else ARMCI_Fence(a0); }
#define ARMCI_Fence u_ARMCI_Fence
static inline void u_ARMCI_AllFence(void) { names_user(13, 0); if (names_use_p) PARMCI_AllFence(); else ARMCI_AllFence(); }
#define ARMCI_AllFence u_ARMCI_AllFence
static inline void u_ARMCI_Access_begin(void * a0) { names_user(14, 0); if (names_use_p) PARMCI_Access_begin(a0); else ARMCI_Access_begin(a0); }
#define ARMCI_Access_begin u_ARMCI_Access_begin
static inline void u_ARMCI_Access_end(void * a0) { names_user(15, 0); if (names_use_p) PARMCI_Access_end(a0); else ARMCI_Access_end(a0); }
#define ARMCI_Access_end u_ARMCI_Access_end
static inline int u_ARMCI_Get(void * a0, void * a1, int a2, int a3) { names_user(16, a2); return names_use_p ? PARMCI_Get(a0, a1, a2, a3) : ARMCI_Get(a0, a1, a2, a3); }
#define ARMCI_Get u_ARMCI_Get
static inline int u_ARMCI_Put(void * a0, void * a1, int a2, int a3) { names_user(17, a2); return names_use_p ? PARMCI_Put(a0, a1, a2, a3) : ARMCI_Put(a0, a1, a2, a3); }
#define ARMCI_Put u_ARMCI_Put
static inline int u_ARMCI_Acc(int a0, void * a1, void * a2, void * a3, int a4, int a5) { names_user(18, a4); return names_use_p ? PARMCI_Acc(a0, a1, a2, a3, a4, a5) : ARMCI_Acc(a0, a1, a2, a3, a4, a5); }
#define ARMCI_Acc u_ARMCI_Acc
static inline int u_ARMCI_PutS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6) { names_user(19, names_strided(a4, a5)); return names_use_p ? PARMCI_PutS(a0, a1, a2, a3, a4, a5, a6) : ARMCI_PutS(a0, a1, a2, a3, a4, a5, a6); }
#define ARMCI_PutS u_ARMCI_PutS
static inline int u_ARMCI_GetS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6) { names_user(20, names_strided(a4, a5)); return names_use_p ? PARMCI_GetS(a0, a1, a2, a3, a4, a5, a6) : ARMCI_GetS(a0, a1, a2, a3, a4, a5, a6); }
#define ARMCI_GetS u_ARMCI_GetS
static inline int u_ARMCI_AccS(int a0, void * a1, void * a2, int a3[], void * a4, int a5[], int a6[], int a7, int a8) { names_user(21, names_strided(a6, a7)); return names_use_p ? PARMCI_AccS(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ARMCI_AccS(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
#define ARMCI_AccS u_ARMCI_AccS
static inline int u_ARMCI_Put_flag(void * a0, void* a1, int a2, int * a3, int a4, int a5) { names_user(22, a2); return names_use_p ? PARMCI_Put_flag(a0, a1, a2, a3, a4, a5) : ARMCI_Put_flag(a0, a1, a2, a3, a4, a5); }
#define ARMCI_Put_flag u_ARMCI_Put_flag
static inline int u_ARMCI_PutS_flag(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int * a6, int a7, int a8) { names_user(23, names_strided(a4, a5)); return names_use_p ? PARMCI_PutS_flag(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ARMCI_PutS_flag(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
#define ARMCI_PutS_flag u_ARMCI_PutS_flag
static inline int u_ARMCI_PutV(armci_giov_t * a0, int a1, int a2) { names_user(24, names_vector(a0, a1)); return names_use_p ? PARMCI_PutV(a0, a1, a2) : ARMCI_PutV(a0, a1, a2); }
#define ARMCI_PutV u_ARMCI_PutV
static inline int u_ARMCI_GetV(armci_giov_t * a0, int a1, int a2) { names_user(25, names_vector(a0, a1)); return names_use_p ? PARMCI_GetV(a0, a1, a2) : ARMCI_GetV(a0, a1, a2); }
#define ARMCI_GetV u_ARMCI_GetV
static inline int u_ARMCI_AccV(int a0, void * a1, armci_giov_t * a2, int a3, int a4) { names_user(26, names_vector(a2, a3)); return names_use_p ? PARMCI_AccV(a0, a1, a2, a3, a4) : ARMCI_AccV(a0, a1, a2, a3, a4); }
#define ARMCI_AccV u_ARMCI_AccV
static inline int u_ARMCI_Wait(armci_hdl_t* a0) { names_user(27, 0); return names_use_p ? PARMCI_Wait(a0) : ARMCI_Wait(a0); }
#define ARMCI_Wait u_ARMCI_Wait
static inline int u_ARMCI_Test(armci_hdl_t* a0) { names_user(28, 0); return names_use_p ? PARMCI_Test(a0) : ARMCI_Test(a0); }
#define ARMCI_Test u_ARMCI_Test
static inline int u_ARMCI_WaitProc(int a0) { names_user(29, 0); return names_use_p ? PARMCI_WaitProc(a0) : ARMCI_WaitProc(a0); }
#define ARMCI_WaitProc u_ARMCI_WaitProc
static inline int u_ARMCI_WaitAll(void) { names_user(30, 0); return names_use_p ? PARMCI_WaitAll() : ARMCI_WaitAll(); }
#define ARMCI_WaitAll u_ARMCI_WaitAll
static inline int u_ARMCI_NbPut(void * a0, void * a1, int a2, int a3, armci_hdl_t * a4) { names_user(31, a2); return names_use_p ? PARMCI_NbPut(a0, a1, a2, a3, a4) : ARMCI_NbPut(a0, a1, a2, a3, a4); }
#define ARMCI_NbPut u_ARMCI_NbPut
static inline int u_ARMCI_NbGet(void * a0, void * a1, int a2, int a3, armci_hdl_t * a4) { names_user(32, a2); return names_use_p ? PARMCI_NbGet(a0, a1, a2, a3, a4) : ARMCI_NbGet(a0, a1, a2, a3, a4); }
#define ARMCI_NbGet u_ARMCI_NbGet
static inline int u_ARMCI_NbAcc(int a0, void * a1, void * a2, void * a3, int a4, int a5, armci_hdl_t * a6) { names_user(33, a4); return names_use_p ? PARMCI_NbAcc(a0, a1, a2, a3, a4, a5, a6) : ARMCI_NbAcc(a0, a1, a2, a3, a4, a5, a6); }
#define ARMCI_NbAcc u_ARMCI_NbAcc
static inline int u_ARMCI_NbPutS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6, armci_hdl_t * a7) { names_user(34, names_strided(a4, a5)); return names_use_p ? PARMCI_NbPutS(a0, a1, a2, a3, a4, a5, a6, a7) : ARMCI_NbPutS(a0, a1, a2, a3, a4, a5, a6, a7); }
#define ARMCI_NbPutS u_ARMCI_NbPutS
static inline int u_ARMCI_NbGetS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6, armci_hdl_t * a7) { names_user(35, names_strided(a4, a5)); return names_use_p ? PARMCI_NbGetS(a0, a1, a2, a3, a4, a5, a6, a7) : ARMCI_NbGetS(a0, a1, a2, a3, a4, a5, a6, a7); }
#define ARMCI_NbGetS u_ARMCI_NbGetS
static inline int u_ARMCI_NbAccS(int a0, void * a1, void * a2, int a3[], void * a4, int a5[], int a6[], int a7, int a8, armci_hdl_t * a9) { names_user(36, names_strided(a6, a7)); return names_use_p ? PARMCI_NbAccS(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ARMCI_NbAccS(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
#define ARMCI_NbAccS u_ARMCI_NbAccS
static inline int u_ARMCI_NbPutV(armci_giov_t * a0, int a1, int a2, armci_hdl_t* a3) { names_user(37, names_vector(a0, a1)); return names_use_p ? PARMCI_NbPutV(a0, a1, a2, a3) : ARMCI_NbPutV(a0, a1, a2, a3); }
#define ARMCI_NbPutV u_ARMCI_NbPutV
static inline int u_ARMCI_NbGetV(armci_giov_t * a0, int a1, int a2, armci_hdl_t* a3) { names_user(38, names_vector(a0, a1)); return names_use_p ? PARMCI_NbGetV(a0, a1, a2, a3) : ARMCI_NbGetV(a0, a1, a2, a3); }
#define ARMCI_NbGetV u_ARMCI_NbGetV
static inline int u_ARMCI_NbAccV(int a0, void * a1, armci_giov_t * a2, int a3, int a4, armci_hdl_t* a5) { names_user(39, names_vector(a2, a3)); return names_use_p ? PARMCI_NbAccV(a0, a1, a2, a3, a4, a5) : ARMCI_NbAccV(a0, a1, a2, a3, a4, a5); }
#define ARMCI_NbAccV u_ARMCI_NbAccV
static inline int u_ARMCI_PutValueInt(int a0, void * a1, int a2) { names_user(40, 0); return names_use_p ? PARMCI_PutValueInt(a0, a1, a2) : ARMCI_PutValueInt(a0, a1, a2); }
#define ARMCI_PutValueInt u_ARMCI_PutValueInt
static inline int u_ARMCI_PutValueLong(long a0, void * a1, int a2) { names_user(41, 0); return names_use_p ? PARMCI_PutValueLong(a0, a1, a2) : ARMCI_PutValueLong(a0, a1, a2); }
#define ARMCI_PutValueLong u_ARMCI_PutValueLong
static inline int u_ARMCI_PutValueFloat(float a0, void * a1, int a2) { names_user(42, 0); return names_use_p ? PARMCI_PutValueFloat(a0, a1, a2) : ARMCI_PutValueFloat(a0, a1, a2); }
#define ARMCI_PutValueFloat u_ARMCI_PutValueFloat
static inline int u_ARMCI_PutValueDouble(double a0, void * a1, int a2) { names_user(43, 0); return names_use_p ? PARMCI_PutValueDouble(a0, a1, a2) : ARMCI_PutValueDouble(a0, a1, a2); }
#define ARMCI_PutValueDouble u_ARMCI_PutValueDouble
static inline int u_ARMCI_NbPutValueInt(int a0, void * a1, int a2, armci_hdl_t * a3) { names_user(44, 0); return names_use_p ? PARMCI_NbPutValueInt(a0, a1, a2, a3) : ARMCI_NbPutValueInt(a0, a1, a2, a3); }
#define ARMCI_NbPutValueInt u_ARMCI_NbPutValueInt
static inline int u_ARMCI_NbPutValueLong(long a0, void * a1, int a2, armci_hdl_t * a3) { names_user(45, 0); return names_use_p ? PARMCI_NbPutValueLong(a0, a1, a2, a3) : ARMCI_NbPutValueLong(a0, a1, a2, a3); }
#define ARMCI_NbPutValueLong u_ARMCI_NbPutValueLong
static inline int u_ARMCI_NbPutValueFloat(float a0, void * a1, int a2, armci_hdl_t * a3) { names_user(46, 0); return names_use_p ? PARMCI_NbPutValueFloat(a0, a1, a2, a3) : ARMCI_NbPutValueFloat(a0, a1, a2, a3); }
#define ARMCI_NbPutValueFloat u_ARMCI_NbPutValueFloat
static inline int u_ARMCI_NbPutValueDouble(double a0, void * a1, int a2, armci_hdl_t * a3) { names_user(47, 0); return names_use_p ? PARMCI_NbPutValueDouble(a0, a1, a2, a3) : ARMCI_NbPutValueDouble(a0, a1, a2, a3); }
#define ARMCI_NbPutValueDouble u_ARMCI_NbPutValueDouble
static inline int u_ARMCI_GetValueInt(void * a0, int a1) { names_user(48, 0); return names_use_p ? PARMCI_GetValueInt(a0, a1) : ARMCI_GetValueInt(a0, a1); }
#define ARMCI_GetValueInt u_ARMCI_GetValueInt
static inline long u_ARMCI_GetValueLong(void * a0, int a1) { names_user(49, 0); return names_use_p ? PARMCI_GetValueLong(a0, a1) : ARMCI_GetValueLong(a0, a1); }
#define ARMCI_GetValueLong u_ARMCI_GetValueLong
static inline float u_ARMCI_GetValueFloat(void * a0, int a1) { names_user(50, 0); return names_use_p ? PARMCI_GetValueFloat(a0, a1) : ARMCI_GetValueFloat(a0, a1); }
#define ARMCI_GetValueFloat u_ARMCI_GetValueFloat
static inline double u_ARMCI_GetValueDouble(void * a0, int a1) { names_user(51, 0); return names_use_p ? PARMCI_GetValueDouble(a0, a1) : ARMCI_GetValueDouble(a0, a1); }
#define ARMCI_GetValueDouble u_ARMCI_GetValueDouble
static inline int u_ARMCI_Create_mutexes(int a0) { names_user(52, 0); return names_use_p ? PARMCI_Create_mutexes(a0) : ARMCI_Create_mutexes(a0); }
#define ARMCI_Create_mutexes u_ARMCI_Create_mutexes
static inline int u_ARMCI_Destroy_mutexes(void) { names_user(53, 0); return names_use_p ? PARMCI_Destroy_mutexes() : ARMCI_Destroy_mutexes(); }
#define ARMCI_Destroy_mutexes u_ARMCI_Destroy_mutexes
static inline void u_ARMCI_Lock(int a0, int a1) { names_user(54, 0); if (names_use_p) PARMCI_Lock(a0, a1); else ARMCI_Lock(a0, a1); }
#define ARMCI_Lock u_ARMCI_Lock
static inline void u_ARMCI_Unlock(int a0, int a1) { names_user(55, 0); if (names_use_p) PARMCI_Unlock(a0, a1); else ARMCI_Unlock(a0, a1); }
#define ARMCI_Unlock u_ARMCI_Unlock
static inline int u_ARMCI_Rmw(int a0, void * a1, void * a2, int a3, int a4) { names_user(56, (a0 == ARMCI_FETCH_AND_ADD_LONG || a0 == ARMCI_SWAP_LONG ? 8 : 4)); return names_use_p ? PARMCI_Rmw(a0, a1, a2, a3, a4) : ARMCI_Rmw(a0, a1, a2, a3, a4); }
#define ARMCI_Rmw u_ARMCI_Rmw
static inline void u_armci_msg_barrier(void) { names_user(57, 0); if (names_use_p) parmci_msg_barrier(); else armci_msg_barrier(); }
#define armci_msg_barrier u_armci_msg_barrier
static inline void u_armci_msg_group_barrier(ARMCI_Group * a0) { names_user(58, 0); if (names_use_p) parmci_msg_group_barrier(a0); else armci_msg_group_barrier(a0); }
#define armci_msg_group_barrier u_armci_msg_group_barrier
static inline int u_ARMCI_Malloc_memdev(void ** a0, armci_size_t a1, const char* a2) { names_user(59, a1); return names_use_p ? PARMCI_Malloc_memdev(a0, a1, a2) : ARMCI_Malloc_memdev(a0, a1, a2); }
#define ARMCI_Malloc_memdev u_ARMCI_Malloc_memdev
static inline int u_ARMCI_Malloc_group_memdev(void ** a0, armci_size_t a1, ARMCI_Group * a2, const char * a3) { names_user(60, a1); return names_use_p ? PARMCI_Malloc_group_memdev(a0, a1, a2, a3) : ARMCI_Malloc_group_memdev(a0, a1, a2, a3); }
#define ARMCI_Malloc_group_memdev u_ARMCI_Malloc_group_memdev
static inline int u_ARMCI_Free_memdev(void * a0) { names_user(61, 0); return names_use_p ? PARMCI_Free_memdev(a0) : ARMCI_Free_memdev(a0); }
#define ARMCI_Free_memdev u_ARMCI_Free_memdev
