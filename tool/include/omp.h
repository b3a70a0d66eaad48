/* Minimal OpenMP declarations: lets clang parse Kokkos' OpenMP backend (signatures only, never linked). */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void);
int omp_in_parallel(void); void omp_set_num_threads(int); int omp_get_level(void); int omp_get_num_procs(void);
int omp_get_nested(void); void omp_set_nested(int); int omp_get_max_active_levels(void); void omp_set_max_active_levels(int);
int omp_get_team_size(int); int omp_get_ancestor_thread_num(int); double omp_get_wtime(void);
typedef enum omp_proc_bind_t { omp_proc_bind_false=0, omp_proc_bind_true=1, omp_proc_bind_master=2, omp_proc_bind_close=3, omp_proc_bind_spread=4 } omp_proc_bind_t;
omp_proc_bind_t omp_get_proc_bind(void);
typedef struct omp_lock_t { void* p; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
