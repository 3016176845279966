/* generated by tools/gen_names.py: a tool that interposes on every normal name */
#include <armci.h>
void tool_seen(int id);
int ARMCI_Init(void) { tool_seen(0); return PARMCI_Init(); }
int ARMCI_Init_args(int * a0, char *** a1) { tool_seen(1); return PARMCI_Init_args(a0, a1); }
int ARMCI_Init_thread(int a0) { tool_seen(2); return PARMCI_Init_thread(a0); }
int ARMCI_Init_thread_comm(int a0, MPI_Comm a1) { tool_seen(3); return PARMCI_Init_thread_comm(a0, a1); }
int ARMCI_Init_mpi_comm(MPI_Comm a0) { tool_seen(4); return PARMCI_Init_mpi_comm(a0); }
int ARMCI_Initialized(void) { tool_seen(5); return PARMCI_Initialized(); }
int ARMCI_Finalize(void) { tool_seen(6); return PARMCI_Finalize(); }
int ARMCI_Malloc(void ** a0, armci_size_t a1) { tool_seen(7); return PARMCI_Malloc(a0, a1); }
int ARMCI_Free(void * a0) { tool_seen(8); return PARMCI_Free(a0); }
void * ARMCI_Malloc_local(armci_size_t a0) { tool_seen(9); return PARMCI_Malloc_local(a0); }
int ARMCI_Free_local(void * a0) { tool_seen(10); return PARMCI_Free_local(a0); }
void ARMCI_Barrier(void) { tool_seen(11); PARMCI_Barrier(); }
void ARMCI_Fence(int a0) { tool_seen(12); PARMCI_Fence(a0); }
void ARMCI_AllFence(void) { tool_seen(13); PARMCI_AllFence(); }
void ARMCI_Access_begin(void * a0) { tool_seen(14); PARMCI_Access_begin(a0); }
void ARMCI_Access_end(void * a0) { tool_seen(15); PARMCI_Access_end(a0); }
int ARMCI_Get(void * a0, void * a1, int a2, int a3) { tool_seen(16); return PARMCI_Get(a0, a1, a2, a3); }
int ARMCI_Put(void * a0, void * a1, int a2, int a3) { tool_seen(17); return PARMCI_Put(a0, a1, a2, a3); }
int ARMCI_Acc(int a0, void * a1, void * a2, void * a3, int a4, int a5) { tool_seen(18); return PARMCI_Acc(a0, a1, a2, a3, a4, a5); }
int ARMCI_PutS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6) { tool_seen(19); return PARMCI_PutS(a0, a1, a2, a3, a4, a5, a6); }
int ARMCI_GetS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6) { tool_seen(20); return PARMCI_GetS(a0, a1, a2, a3, a4, a5, a6); }
int ARMCI_AccS(int a0, void * a1, void * a2, int a3[], void * a4, int a5[], int a6[], int a7, int a8) { tool_seen(21); return PARMCI_AccS(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
int ARMCI_Put_flag(void * a0, void* a1, int a2, int * a3, int a4, int a5) { tool_seen(22); return PARMCI_Put_flag(a0, a1, a2, a3, a4, a5); }
int ARMCI_PutS_flag(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int * a6, int a7, int a8) { tool_seen(23); return PARMCI_PutS_flag(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
int ARMCI_PutV(armci_giov_t * a0, int a1, int a2) { tool_seen(24); return PARMCI_PutV(a0, a1, a2); }
int ARMCI_GetV(armci_giov_t * a0, int a1, int a2) { tool_seen(25); return PARMCI_GetV(a0, a1, a2); }
int ARMCI_AccV(int a0, void * a1, armci_giov_t * a2, int a3, int a4) { tool_seen(26); return PARMCI_AccV(a0, a1, a2, a3, a4); }
int ARMCI_Wait(armci_hdl_t* a0) { tool_seen(27); return PARMCI_Wait(a0); }
int ARMCI_Test(armci_hdl_t* a0) { tool_seen(28); return PARMCI_Test(a0); }
int ARMCI_WaitProc(int a0) { tool_seen(29); return PARMCI_WaitProc(a0); }
int ARMCI_WaitAll(void) { tool_seen(30); return PARMCI_WaitAll(); }
int ARMCI_NbPut(void * a0, void * a1, int a2, int a3, armci_hdl_t * a4) { tool_seen(31); return PARMCI_NbPut(a0, a1, a2, a3, a4); }
int ARMCI_NbGet(void * a0, void * a1, int a2, int a3, armci_hdl_t * a4) { tool_seen(32); return PARMCI_NbGet(a0, a1, a2, a3, a4); }
int ARMCI_NbAcc(int a0, void * a1, void * a2, void * a3, int a4, int a5, armci_hdl_t * a6) { tool_seen(33); return PARMCI_NbAcc(a0, a1, a2, a3, a4, a5, a6); }
int ARMCI_NbPutS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6, armci_hdl_t * a7) { tool_seen(34); return PARMCI_NbPutS(a0, a1, a2, a3, a4, a5, a6, a7); }
int ARMCI_NbGetS(void * a0, int a1[], void * a2, int a3[], int a4[], int a5, int a6, armci_hdl_t * a7) { tool_seen(35); return PARMCI_NbGetS(a0, a1, a2, a3, a4, a5, a6, a7); }
int ARMCI_NbAccS(int a0, void * a1, void * a2, int a3[], void * a4, int a5[], int a6[], int a7, int a8, armci_hdl_t * a9) { tool_seen(36); return PARMCI_NbAccS(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
int ARMCI_NbPutV(armci_giov_t * a0, int a1, int a2, armci_hdl_t* a3) { tool_seen(37); return PARMCI_NbPutV(a0, a1, a2, a3); }
int ARMCI_NbGetV(armci_giov_t * a0, int a1, int a2, armci_hdl_t* a3) { tool_seen(38); return PARMCI_NbGetV(a0, a1, a2, a3); }
int ARMCI_NbAccV(int a0, void * a1, armci_giov_t * a2, int a3, int a4, armci_hdl_t* a5) { tool_seen(39); return PARMCI_NbAccV(a0, a1, a2, a3, a4, a5); }
int ARMCI_PutValueInt(int a0, void * a1, int a2) { tool_seen(40); return PARMCI_PutValueInt(a0, a1, a2); }
int ARMCI_PutValueLong(long a0, void * a1, int a2) { tool_seen(41); return PARMCI_PutValueLong(a0, a1, a2); }
int ARMCI_PutValueFloat(float a0, void * a1, int a2) { tool_seen(42); return PARMCI_PutValueFloat(a0, a1, a2); }
int ARMCI_PutValueDouble(double a0, void * a1, int a2) { tool_seen(43); return PARMCI_PutValueDouble(a0, a1, a2); }
int ARMCI_NbPutValueInt(int a0, void * a1, int a2, armci_hdl_t * a3) { tool_seen(44); return PARMCI_NbPutValueInt(a0, a1, a2, a3); }
int ARMCI_NbPutValueLong(long a0, void * a1, int a2, armci_hdl_t * a3) { tool_seen(45); return PARMCI_NbPutValueLong(a0, a1, a2, a3); }
int ARMCI_NbPutValueFloat(float a0, void * a1, int a2, armci_hdl_t * a3) { tool_seen(46); return PARMCI_NbPutValueFloat(a0, a1, a2, a3); }
int ARMCI_NbPutValueDouble(double a0, void * a1, int a2, armci_hdl_t * a3) { tool_seen(47); return PARMCI_NbPutValueDouble(a0, a1, a2, a3); }
int ARMCI_GetValueInt(void * a0, int a1) { tool_seen(48); return PARMCI_GetValueInt(a0, a1); }
long ARMCI_GetValueLong(void * a0, int a1) { tool_seen(49); return PARMCI_GetValueLong(a0, a1); }
float ARMCI_GetValueFloat(void * a0, int a1) { tool_seen(50); return PARMCI_GetValueFloat(a0, a1); }
double ARMCI_GetValueDouble(void * a0, int a1) { tool_seen(51); return PARMCI_GetValueDouble(a0, a1); }
int ARMCI_Create_mutexes(int a0) { tool_seen(52); return PARMCI_Create_mutexes(a0); }
int ARMCI_Destroy_mutexes(void) { tool_seen(53); return PARMCI_Destroy_mutexes(); }
void ARMCI_Lock(int a0, int a1) { tool_seen(54); PARMCI_Lock(a0, a1); }
void ARMCI_Unlock(int a0, int a1) { tool_seen(55); PARMCI_Unlock(a0, a1); }
int ARMCI_Rmw(int a0, void * a1, void * a2, int a3, int a4) { tool_seen(56); return PARMCI_Rmw(a0, a1, a2, a3, a4); }
void armci_msg_barrier(void) { tool_seen(57); parmci_msg_barrier(); }
void armci_msg_group_barrier(ARMCI_Group * a0) { tool_seen(58); parmci_msg_group_barrier(a0); }
int ARMCI_Malloc_memdev(void ** a0, armci_size_t a1, const char* a2) { tool_seen(59); return PARMCI_Malloc_memdev(a0, a1, a2); }
int ARMCI_Malloc_group_memdev(void ** a0, armci_size_t a1, ARMCI_Group * a2, const char * a3) { tool_seen(60); return PARMCI_Malloc_group_memdev(a0, a1, a2, a3); }
int ARMCI_Free_memdev(void * a0) { tool_seen(61); return PARMCI_Free_memdev(a0); }
