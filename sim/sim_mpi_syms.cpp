// Storage for the addresses that stand for the predefined MPI handles.
extern "C" {
#define S(n) alignas(64) char n[512];
S(ompi_mpi_comm_world) S(ompi_mpi_comm_self) S(ompi_mpi_comm_null)
S(ompi_mpi_errors_are_fatal) S(ompi_mpi_errors_return) S(ompi_mpi_errhandler_null)
S(ompi_mpi_datatype_null) S(ompi_mpi_char) S(ompi_mpi_signed_char) S(ompi_mpi_unsigned_char) S(ompi_mpi_byte) S(ompi_mpi_short) S(ompi_mpi_unsigned_short) S(ompi_mpi_int) S(ompi_mpi_unsigned)
S(ompi_mpi_long) S(ompi_mpi_unsigned_long) S(ompi_mpi_long_long_int) S(ompi_mpi_unsigned_long_long) S(ompi_mpi_float) S(ompi_mpi_double) S(ompi_mpi_cxx_bool) S(ompi_mpi_c_bool) S(ompi_mpi_2int)
S(ompi_mpi_int8_t) S(ompi_mpi_int16_t) S(ompi_mpi_int32_t) S(ompi_mpi_int64_t) S(ompi_mpi_uint8_t) S(ompi_mpi_uint16_t) S(ompi_mpi_uint32_t) S(ompi_mpi_uint64_t)
S(ompi_mpi_op_null) S(ompi_mpi_op_max) S(ompi_mpi_op_min) S(ompi_mpi_op_sum) S(ompi_mpi_op_prod) S(ompi_mpi_op_land) S(ompi_mpi_op_band) S(ompi_mpi_op_lor) S(ompi_mpi_op_bor) S(ompi_mpi_op_lxor) S(ompi_mpi_op_bxor) S(ompi_mpi_op_minloc) S(ompi_mpi_op_maxloc) S(ompi_mpi_op_replace)
S(ompi_request_null) S(ompi_mpi_group_null) S(ompi_mpi_group_empty) S(ompi_mpi_info_null)
}
