"ARMCI_Init",
"ARMCI_Init_args",
"ARMCI_Init_thread",
"ARMCI_Init_thread_comm",
"ARMCI_Init_mpi_comm",
"ARMCI_Initialized",
"ARMCI_Finalize",
"ARMCI_Malloc",
"ARMCI_Free",
"ARMCI_Malloc_local",
"ARMCI_Free_local",
"ARMCI_Barrier",
"ARMCI_Fence",
"ARMCI_AllFence",
"ARMCI_Access_begin",
"ARMCI_Access_end",
"ARMCI_Get",
"ARMCI_Put",
"ARMCI_Acc",
"ARMCI_PutS",
"ARMCI_GetS",
"ARMCI_AccS",
"ARMCI_Put_flag",
"ARMCI_PutS_flag",
"ARMCI_PutV",
"ARMCI_GetV",
"ARMCI_AccV",
"ARMCI_Wait",
"ARMCI_Test",
"ARMCI_WaitProc",
"ARMCI_WaitAll",
"ARMCI_NbPut",
"ARMCI_NbGet",
"ARMCI_NbAcc",
"ARMCI_NbPutS",
"ARMCI_NbGetS",
"ARMCI_NbAccS",
"ARMCI_NbPutV",
"ARMCI_NbGetV",
"ARMCI_NbAccV",
"ARMCI_PutValueInt",
"ARMCI_PutValueLong",
"ARMCI_PutValueFloat",
"ARMCI_PutValueDouble",
"ARMCI_NbPutValueInt",
"ARMCI_NbPutValueLong",
"ARMCI_NbPutValueFloat",
"ARMCI_NbPutValueDouble",
"ARMCI_GetValueInt",
"ARMCI_GetValueLong",
"ARMCI_GetValueFloat",
"ARMCI_GetValueDouble",
"ARMCI_Create_mutexes",
"ARMCI_Destroy_mutexes",
"ARMCI_Lock",
"ARMCI_Unlock",
"ARMCI_Rmw",
"armci_msg_barrier",
"armci_msg_group_barrier",
"ARMCI_Malloc_memdev",
"ARMCI_Malloc_group_memdev",
"ARMCI_Free_memdev"
