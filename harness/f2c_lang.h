// Prototypes of the Fortran entry points (Integer and logical are 8 bytes; hidden string lengths follow the arguments).
#pragma once
typedef long FInt;
extern "C" {
void ga_abs_value_(FInt *);
void ga_abs_value_patch_(FInt *, FInt *, FInt *);
void ga_acc_(FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *, void *);
void ga_add_(void *, FInt *, void *, FInt *, FInt *);
void ga_add_constant_(FInt *, void *);
void ga_add_constant_patch_(FInt *, FInt *, FInt *, void *);
void ga_add_diagonal_(FInt *, FInt *);
void ga_add_patch_(void *, FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
FInt ga_allocate_(FInt *);
void ga_brdcst_(FInt *, void *, FInt *, FInt *);
void ga_cadd_(void *, FInt *, void *, FInt *, FInt *);
void ga_cadd_patch_(void *, FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_cfill_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, void *);
void ga_cgemm_(char *, char *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, void *, FInt *, int , int );
void ga_cgop_(FInt *, void *, FInt *, char *, int );
FInt ga_compare_distr_(FInt *, FInt *);
void ga_copy_(FInt *, FInt *);
void ga_copy_patch_(char *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, int );
FInt ga_create_handle_();
FInt ga_create_irreg_(FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, FInt *, int );
void ga_cscal_(FInt *, void *);
void ga_cscal_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, void *);
void ga_cscale_(FInt *, void *);
void ga_dadd_(double *, FInt *, double *, FInt *, FInt *);
void ga_dadd_patch_(double *, FInt *, FInt *, FInt *, FInt *, FInt *, double *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
FInt ga_destroy_(FInt *);
void ga_dfill_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, double *);
void ga_distribution_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_dscal_(FInt *, double *);
void ga_dscal_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, double *);
void ga_dscale_(FInt *, double *);
void ga_elem_maximum_(FInt *, FInt *, FInt *);
void ga_elem_maximum_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_elem_minimum_(FInt *, FInt *, FInt *);
void ga_elem_minimum_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_elem_multiply_(FInt *, FInt *, FInt *);
void ga_elem_multiply_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_fill_(FInt *, void *);
void ga_fill_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, void *);
void ga_gather_(FInt *, void *, FInt *, FInt *, FInt *);
void ga_get_(FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *);
void ga_get_array_name_(FInt *, char *, int );
void ga_get_diag_(FInt *, FInt *);
FInt ga_get_dimension_(FInt *);
FInt ga_get_pgroup_(FInt *);
void ga_gop_(FInt *, void *, FInt *, char *, int );
FInt ga_has_ghosts_(FInt *);
void ga_iadd_(FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_iadd_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_ifill_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_igop_(FInt *, FInt *, FInt *, char *, int );
void ga_inquire_(FInt *, FInt *, FInt *, FInt *);
void ga_inquire_name_(FInt *, char *, int );
void ga_iscal_(FInt *, FInt *);
void ga_iscal_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_iscale_(FInt *, FInt *);
FInt ga_locate_(FInt *, FInt *, FInt *, FInt *);
FInt ga_locate_region_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_matmul_patch_(char *, char *, double *, double *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, int , int );
void ga_nbacc_(FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *, void *, FInt *);
void ga_nbget_(FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *, FInt *);
void ga_nblock_(FInt *, FInt *);
void ga_nbput_(FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *, FInt *);
FInt ga_nbtest_(FInt *);
void ga_nbwait_(FInt *);
FInt ga_ndim_(FInt *);
FInt ga_nnodes_();
FInt ga_nodeid_();
void ga_norm1_(FInt *, double *);
void ga_norm_infinity_(FInt *, double *);
FInt ga_pgroup_absolute_id_(FInt *, FInt *);
void ga_pgroup_brdcst_(FInt *, FInt *, void *, FInt *, FInt *);
FInt ga_pgroup_get_world_();
void ga_pgroup_gop_(FInt *, FInt *, void *, FInt *, char *, int );
void ga_pgroup_igop_(FInt *, FInt *, FInt *, FInt *, char *, int );
FInt ga_pgroup_nnodes_(FInt *);
void ga_pgroup_sgop_(FInt *, FInt *, float *, FInt *, char *, int );
void ga_pgroup_sync_(FInt *);
void ga_put_(FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *);
FInt ga_read_inc_(FInt *, FInt *, FInt *, FInt *);
void ga_sadd_(float *, FInt *, float *, FInt *, FInt *);
void ga_sadd_patch_(float *, FInt *, FInt *, FInt *, FInt *, FInt *, float *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_scale_(FInt *, void *);
void ga_scale_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, void *);
void ga_scale_rows_(FInt *, FInt *);
void ga_scatter_(FInt *, void *, FInt *, FInt *, FInt *);
void ga_scatter_acc_(FInt *, void *, FInt *, FInt *, FInt *, void *);
void ga_set_array_name_(FInt *, char *, int );
void ga_set_block_cyclic_(FInt *, FInt *);
void ga_set_block_cyclic_proc_grid_(FInt *, FInt *, FInt *);
void ga_set_chunk_(FInt *, FInt *);
void ga_set_data_(FInt *, FInt *, FInt *, FInt *);
void ga_set_diagonal_(FInt *, FInt *);
void ga_set_ghosts_(FInt *, FInt *);
void ga_set_irreg_distr_(FInt *, FInt *, FInt *);
void ga_set_pgroup_(FInt *, FInt *);
void ga_set_restricted_(FInt *, FInt *, FInt *);
void ga_set_restricted_range_(FInt *, FInt *, FInt *);
void ga_set_tiled_irreg_proc_grid_(FInt *, FInt *, FInt *, FInt *);
void ga_set_tiled_proc_grid_(FInt *, FInt *, FInt *);
void ga_sfill_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, float *);
void ga_sgemm_(char *, char *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, void *, FInt *, int , int );
void ga_sgop_(FInt *, float *, FInt *, char *, int );
void ga_shift_diagonal_(FInt *, void *);
void ga_sscal_(FInt *, float *);
void ga_sscal_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, float *);
void ga_sscale_(FInt *, float *);
void ga_symmetrize_(FInt *);
void ga_sync_();
FInt ga_total_blocks_(FInt *);
void ga_transpose_(FInt *, FInt *);
void ga_update_ghosts_(FInt *);
void ga_zadd_(void *, FInt *, void *, FInt *, FInt *);
void ga_zadd_patch_(void *, FInt *, FInt *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_zero_(FInt *);
void ga_zero_diagonal_(FInt *);
void ga_zero_patch_(FInt *, FInt *, FInt *, FInt *, FInt *);
void ga_zfill_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, void *);
void ga_zgemm_(char *, char *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, void *, FInt *, int , int );
void ga_zscal_(FInt *, void *);
void ga_zscal_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, void *);
void ga_zscale_(FInt *, void *);
void gai_zdot_(FInt *, FInt *, void *);
void gai_zdot_patch_(FInt *, char *, FInt *, FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, void *, int , int );
void nga_abs_value_(FInt *);
void nga_abs_value_patch_(FInt *, FInt *, FInt *);
void nga_acc_(FInt *, FInt *, FInt *, void *, FInt *, void *);
void nga_add_(void *, FInt *, void *, FInt *, FInt *);
void nga_add_constant_(FInt *, void *);
void nga_add_constant_patch_(FInt *, FInt *, FInt *, void *);
void nga_add_diagonal_(FInt *, FInt *);
void nga_add_patch_(void *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
FInt nga_allocate_(FInt *);
void nga_brdcst_(FInt *, void *, FInt *, FInt *);
void nga_cadd_(void *, FInt *, void *, FInt *, FInt *);
void nga_cadd_patch_(void *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_cfill_patch_(FInt *, FInt *, FInt *, void *);
FInt nga_compare_distr_(FInt *, FInt *);
void nga_copy_(FInt *, FInt *);
void nga_copy_patch_(char *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, int );
FInt nga_create_(FInt *, FInt *, FInt *, char *, FInt *, FInt *, int );
FInt nga_create_config_(FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, int );
FInt nga_create_ghosts_(FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, int );
FInt nga_create_ghosts_config_(FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, int );
FInt nga_create_ghosts_irreg_(FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, int );
FInt nga_create_ghosts_irreg_config_(FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, int );
FInt nga_create_handle_();
FInt nga_create_irreg_(FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, int );
FInt nga_create_irreg_config_(FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, int );
void nga_cscale_(FInt *, void *);
void nga_cscale_patch_(FInt *, FInt *, FInt *, void *);
void nga_dadd_(double *, FInt *, double *, FInt *, FInt *);
void nga_dadd_patch_(double *, FInt *, FInt *, FInt *, double *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
FInt nga_destroy_(FInt *);
void nga_dfill_patch_(FInt *, FInt *, FInt *, double *);
void nga_dgop_(FInt *, double *, FInt *, char *, int );
void nga_distribution_(FInt *, FInt *, FInt *, FInt *);
void nga_dscale_(FInt *, double *);
void nga_dscale_patch_(FInt *, FInt *, FInt *, double *);
void nga_elem_maximum_(FInt *, FInt *, FInt *);
void nga_elem_maximum_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_elem_minimum_(FInt *, FInt *, FInt *);
void nga_elem_minimum_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_elem_multiply_(FInt *, FInt *, FInt *);
void nga_elem_multiply_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_fill_(FInt *, void *);
void nga_fill_patch_(FInt *, FInt *, FInt *, void *);
void nga_gather_(FInt *, void *, FInt *, FInt *);
void nga_get_(FInt *, FInt *, FInt *, void *, FInt *);
void nga_get_array_name_(FInt *, char *, int );
void nga_get_block_info_(FInt *, FInt *, FInt *);
void nga_get_diag_(FInt *, FInt *);
FInt nga_get_pgroup_(FInt *);
void nga_get_proc_grid_(FInt *, FInt *);
void nga_gop_(FInt *, void *, FInt *, char *, int );
FInt nga_has_ghosts_(FInt *);
void nga_iadd_(FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_iadd_patch_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_ifill_patch_(FInt *, FInt *, FInt *, FInt *);
void nga_inquire_(FInt *, FInt *, FInt *, FInt *);
void nga_inquire_name_(FInt *, char *, int );
void nga_iscale_(FInt *, FInt *);
void nga_iscale_patch_(FInt *, FInt *, FInt *, FInt *);
FInt nga_locate_(FInt *, FInt *, FInt *);
FInt nga_locate_region_(FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_matmul_patch_(char *, char *, void *, void *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *, int , int );
void nga_nbacc_(FInt *, FInt *, FInt *, void *, FInt *, void *, FInt *);
void nga_nbget_(FInt *, FInt *, FInt *, void *, FInt *, FInt *);
void nga_nblock_(FInt *, FInt *);
void nga_nbput_(FInt *, FInt *, FInt *, void *, FInt *, FInt *);
FInt nga_nbtest_(FInt *);
void nga_nbwait_(FInt *);
FInt nga_ndim_(FInt *);
FInt nga_nnodes_();
FInt nga_nodeid_();
void nga_norm1_(FInt *, double *);
void nga_norm_infinity_(FInt *, double *);
void nga_periodic_acc_(FInt *, FInt *, FInt *, void *, FInt *, void *);
void nga_periodic_get_(FInt *, FInt *, FInt *, void *, FInt *);
void nga_periodic_put_(FInt *, FInt *, FInt *, void *, FInt *);
void nga_pgroup_dgop_(FInt *, FInt *, double *, FInt *, char *, int );
FInt nga_pgroup_get_default_();
void nga_pgroup_gop_(FInt *, FInt *, void *, FInt *, char *, int );
FInt nga_pgroup_nodeid_(FInt *);
void nga_pgroup_sync_(FInt *);
void nga_put_(FInt *, FInt *, FInt *, void *, FInt *);
FInt nga_read_inc_(FInt *, FInt *, FInt *);
void nga_sadd_(float *, FInt *, float *, FInt *, FInt *);
void nga_sadd_patch_(float *, FInt *, FInt *, FInt *, float *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_scale_(FInt *, void *);
void nga_scale_patch_(FInt *, FInt *, FInt *, void *);
void nga_scale_rows_(FInt *, FInt *);
void nga_scatter_(FInt *, void *, FInt *, FInt *);
void nga_scatter_acc_(FInt *, void *, FInt *, FInt *, void *);
void nga_select_elem_(FInt *, char *, void *, FInt *, int );
void nga_set_array_name_(FInt *, char *, int );
void nga_set_block_cyclic_(FInt *, FInt *);
void nga_set_block_cyclic_proc_grid_(FInt *, FInt *, FInt *);
void nga_set_chunk_(FInt *, FInt *);
void nga_set_data_(FInt *, FInt *, FInt *, FInt *);
void nga_set_diagonal_(FInt *, FInt *);
void nga_set_ghosts_(FInt *, FInt *);
void nga_set_irreg_distr_(FInt *, FInt *, FInt *);
void nga_set_pgroup_(FInt *, FInt *);
void nga_set_restricted_(FInt *, FInt *, FInt *);
void nga_set_restricted_range_(FInt *, FInt *, FInt *);
void nga_set_tiled_irreg_proc_grid_(FInt *, FInt *, FInt *, FInt *);
void nga_set_tiled_proc_grid_(FInt *, FInt *, FInt *);
void nga_sfill_patch_(FInt *, FInt *, FInt *, void *);
void nga_shift_diagonal_(FInt *, void *);
void nga_sscale_(FInt *, float *);
void nga_sscale_patch_(FInt *, FInt *, FInt *, float *);
void nga_strided_acc_(FInt *, FInt *, FInt *, FInt *, void *, FInt *, void *);
void nga_strided_get_(FInt *, FInt *, FInt *, FInt *, void *, FInt *);
void nga_strided_put_(FInt *, FInt *, FInt *, FInt *, void *, FInt *);
void nga_symmetrize_(FInt *);
void nga_sync_();
FInt nga_total_blocks_(FInt *);
void nga_transpose_(FInt *, FInt *);
FInt nga_update_ghost_dir_(FInt *, FInt *, FInt *, FInt *);
void nga_update_ghosts_(FInt *);
void nga_zadd_(void *, FInt *, void *, FInt *, FInt *);
void nga_zadd_patch_(void *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, FInt *, FInt *, FInt *, FInt *);
void nga_zero_(FInt *);
void nga_zero_diagonal_(FInt *);
void nga_zero_patch_(FInt *, FInt *, FInt *);
void nga_zfill_patch_(FInt *, FInt *, FInt *, void *);
void nga_zgop_(FInt *, void *, FInt *, char *, int );
void nga_zscale_(FInt *, void *);
void nga_zscale_patch_(FInt *, FInt *, FInt *, void *);
void ngai_zdot_(FInt *, FInt *, void *);
void ngai_zdot_patch_(FInt *, char *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, void *, int , int );
FInt ga_idot_(FInt *, FInt *);
FInt ga_idot_patch_(FInt *, char *, FInt *, FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, int , int );
double ga_ddot_(FInt *, FInt *);
double ga_ddot_patch_(FInt *, char *, FInt *, FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, int , int );
float ga_sdot_(FInt *, FInt *);
float ga_sdot_patch_(FInt *, char *, FInt *, FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, int , int );
FInt nga_idot_(FInt *, FInt *);
FInt nga_idot_patch_(FInt *, char *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, int , int );
double nga_ddot_(FInt *, FInt *);
double nga_ddot_patch_(FInt *, char *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, int , int );
float nga_sdot_(FInt *, FInt *);
float nga_sdot_patch_(FInt *, char *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, int , int );
FInt ga_create_(FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, int);
void gai_zdot_patch_(FInt *, char *, FInt *, FInt *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, FInt *, FInt *, void *, int, int);
void ngai_zdot_patch_(FInt *, char *, FInt *, FInt *, FInt *, char *, FInt *, FInt *, void *, int, int);
void ga_dgemm_(char *, char *, FInt *, FInt *, FInt *, void *, FInt *, FInt *, void *, FInt *, int, int);
}
