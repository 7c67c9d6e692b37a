/* declarations only: lets clang parse the OpenMP configuration of /repo */
#pragma once
extern "C" {
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int);
}
