#pragma once
extern "C" {
typedef enum omp_sched_t { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_in_parallel(void);
void omp_set_num_threads(int); int omp_get_thread_limit(void); int omp_get_num_procs(void);
double omp_get_wtime(void); int omp_get_dynamic(void); void omp_set_dynamic(int);
}
