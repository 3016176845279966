/* force-included before every /repo source file in simulator builds */
#ifndef SIMHOOKS_H
#define SIMHOOKS_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <sched.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void *simh_malloc(size_t); void *simh_calloc(size_t, size_t); void *simh_realloc(void *, size_t); void simh_free(void *);
char *simh_strdup(const char *);
int simh_posix_memalign(void **, size_t, size_t);
void *simh_memcpy(void *, const void *, size_t); void *simh_memmove(void *, const void *, size_t); void *simh_memset(void *, int, size_t);
int simh_mutex_lock(pthread_mutex_t *); int simh_mutex_unlock(pthread_mutex_t *);
int simh_mutex_trylock(pthread_mutex_t *); int simh_cond_wait(pthread_cond_t *, pthread_mutex_t *); int simh_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int simh_cond_signal(pthread_cond_t *); int simh_cond_broadcast(pthread_cond_t *);
int simh_rdlock(pthread_rwlock_t *); int simh_wrlock(pthread_rwlock_t *); int simh_rwunlock(pthread_rwlock_t *); int simh_spin_lock(pthread_spinlock_t *); int simh_spin_unlock(pthread_spinlock_t *);
int simh_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int simh_pcreate(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int simh_pjoin(pthread_t, void **);
int simh_nanosleep(const struct timespec *, struct timespec *); int simh_usleep(useconds_t); unsigned simh_sleep(unsigned); int simh_sched_yield(void);
#ifdef __cplusplus
}
#endif
#ifndef SIMH_NO_MACROS
#define malloc simh_malloc
#define calloc simh_calloc
#define realloc simh_realloc
#define free simh_free
#undef strdup
#define strdup simh_strdup
#define posix_memalign simh_posix_memalign
#define memcpy simh_memcpy
#define memmove simh_memmove
#define memset simh_memset
#define pthread_mutex_lock simh_mutex_lock
#define pthread_mutex_unlock simh_mutex_unlock
#define pthread_mutex_trylock simh_mutex_trylock
#define pthread_cond_wait simh_cond_wait
#define pthread_cond_timedwait simh_cond_timedwait
#define pthread_cond_signal simh_cond_signal
#define pthread_cond_broadcast simh_cond_broadcast
#define pthread_rwlock_rdlock simh_rdlock
#define pthread_rwlock_wrlock simh_wrlock
#define pthread_rwlock_unlock simh_rwunlock
#define pthread_spin_lock simh_spin_lock
#define pthread_spin_unlock simh_spin_unlock
#define clock_nanosleep simh_clock_nanosleep
#define pthread_yield simh_sched_yield
#define pthread_create simh_pcreate
#define pthread_join simh_pjoin
#define nanosleep simh_nanosleep
#define usleep simh_usleep
#define sleep simh_sleep
#define sched_yield simh_sched_yield
#endif
#endif
