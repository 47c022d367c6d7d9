/* the OpenMP routines of src/omp_rt.cpp */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int omp_lock_t;
typedef enum omp_sched_t { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_level(void);
int omp_get_num_devices(void);
int omp_get_default_device(void);
int omp_get_initial_device(void);
int omp_is_initial_device(void);
double omp_get_wtime(void);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
