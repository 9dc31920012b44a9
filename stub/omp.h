extern "C" { int omp_get_num_threads(void); int omp_get_thread_num(void); void omp_set_dynamic(int); int omp_get_max_threads(void);}
