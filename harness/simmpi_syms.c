/* storage for the OpenMPI predefined objects whose addresses the MPI macros take */
char ompi_mpi_comm_world[1024];
char ompi_mpi_comm_self[1024];
char ompi_mpi_comm_null[1024];
char ompi_mpi_char[1024];
char ompi_mpi_byte[1024];
char ompi_mpi_int[1024];
char ompi_mpi_unsigned[1024];
char ompi_mpi_unsigned_long[1024];
char ompi_mpi_uint64_t[1024];
char ompi_mpi_double[1024];
char ompi_mpi_float[1024];
char ompi_mpi_long[1024];
char ompi_mpi_size_t[1024];
char ompi_mpi_long_double[1024];
char ompi_request_null[1024];
char ompi_mpi_op_sum[1024];
char ompi_mpi_op_max[1024];
char ompi_mpi_op_min[1024];
char ompi_mpi_info_null[1024];
char ompi_mpi_errors_return[1024];
char ompi_mpi_errors_are_fatal[1024];
char ompi_mpi_group_null[1024];
