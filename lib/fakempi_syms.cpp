// storage for OpenMPI's predefined handles (only their addresses matter)
#define S(x) char x[1024];
extern "C" {
S(ompi_mpi_comm_world) S(ompi_mpi_comm_self) S(ompi_mpi_comm_null) S(ompi_mpi_char) S(ompi_mpi_int) S(ompi_mpi_unsigned) S(ompi_mpi_uint32_t) S(ompi_mpi_uint64_t)
S(ompi_mpi_long) S(ompi_mpi_unsigned_long) S(ompi_mpi_double) S(ompi_mpi_float) S(ompi_mpi_long_double) S(ompi_mpi_byte) S(ompi_mpi_op_max) S(ompi_mpi_op_min) S(ompi_mpi_op_sum) S(ompi_request_null)
S(ompi_mpi_datatype_null) S(ompi_mpi_group_null) S(ompi_mpi_info_null) S(ompi_mpi_errors_return) S(ompi_mpi_errors_are_fatal) S(ompi_mpi_op_null) S(ompi_mpi_unsigned_char) S(ompi_mpi_signed_char) S(ompi_mpi_short) S(ompi_mpi_long_long_int) S(ompi_mpi_unsigned_long_long) S(ompi_mpi_size_t)
}
