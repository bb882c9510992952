/* Storage for Open MPI's predefined handles: only their addresses matter. */
#define H(n) char n[512] __attribute__((aligned(64)));
H(ompi_mpi_comm_world) H(ompi_mpi_comm_self) H(ompi_mpi_comm_null) H(ompi_mpi_group_null) H(ompi_mpi_group_empty)
H(ompi_request_null) H(ompi_message_null) H(ompi_message_no_proc) H(ompi_mpi_op_null) H(ompi_mpi_errhandler_null) H(ompi_mpi_info_null)
H(ompi_mpi_win_null) H(ompi_mpi_file_null) H(ompi_mpi_errors_are_fatal) H(ompi_mpi_errors_return)
H(ompi_mpi_op_max) H(ompi_mpi_op_min) H(ompi_mpi_op_sum) H(ompi_mpi_op_prod) H(ompi_mpi_op_land) H(ompi_mpi_op_band) H(ompi_mpi_op_lor)
H(ompi_mpi_op_bor) H(ompi_mpi_op_lxor) H(ompi_mpi_op_bxor) H(ompi_mpi_op_maxloc) H(ompi_mpi_op_minloc) H(ompi_mpi_op_replace) H(ompi_mpi_op_no_op)
H(ompi_mpi_datatype_null) H(ompi_mpi_byte) H(ompi_mpi_packed) H(ompi_mpi_char) H(ompi_mpi_short) H(ompi_mpi_int) H(ompi_mpi_long)
H(ompi_mpi_float) H(ompi_mpi_double) H(ompi_mpi_long_double) H(ompi_mpi_unsigned_char) H(ompi_mpi_signed_char) H(ompi_mpi_unsigned_short)
H(ompi_mpi_unsigned_long) H(ompi_mpi_unsigned) H(ompi_mpi_float_int) H(ompi_mpi_double_int) H(ompi_mpi_longdbl_int) H(ompi_mpi_long_int)
H(ompi_mpi_short_int) H(ompi_mpi_2int) H(ompi_mpi_long_long_int) H(ompi_mpi_unsigned_long_long)
H(ompi_mpi_int8_t) H(ompi_mpi_uint8_t) H(ompi_mpi_int16_t) H(ompi_mpi_uint16_t) H(ompi_mpi_int32_t) H(ompi_mpi_uint32_t) H(ompi_mpi_int64_t) H(ompi_mpi_uint64_t)
H(ompi_mpi_c_bool) H(ompi_mpi_cxx_bool) H(ompi_mpi_aint) H(ompi_mpi_offset) H(ompi_mpi_count)
