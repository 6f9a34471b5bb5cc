/* Declarations only: lets clang parse sources that include gcc's omp.h. */
#ifndef L1CV_OMP_H
#define L1CV_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char x[4]; } omp_lock_t;
typedef struct { unsigned char x[16]; } omp_nest_lock_t;
typedef enum omp_sched_t { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
void omp_set_nested(int);
int omp_get_nested(void);
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
int omp_test_lock(omp_lock_t*);
double omp_get_wtime(void);
double omp_get_wtick(void);
void omp_set_schedule(omp_sched_t, int);
void omp_get_schedule(omp_sched_t*, int*);
int omp_get_thread_limit(void);
void omp_set_max_active_levels(int);
int omp_get_max_active_levels(void);
int omp_get_level(void);
int omp_get_team_size(int);
int omp_get_active_level(void);
#ifdef __cplusplus
}
#endif
#endif
