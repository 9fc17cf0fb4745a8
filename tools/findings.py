FIXED = [
    ("block-cyclic arrays on processor groups", "C01"),
    ("block-cyclic iterator skips", "C01"),
    ("periodic patches more than", "C02"),
    ("strided put, get and accumulate on processor groups", "C02"),
    ("field transfers", "C02"),
    ("64-bit scatter", "C02"),
    ("block offsets in tiled", "C02"),
    ("strided transfers index buffers", "C02"),
    ("block-cyclic iterator starts", "C02"),
    ("scatter and gather on groups", "C02"),
    ("strided transfers by MPI datatype", "C02"),
    ("strided loops have room", "C02"),
    ("reuse non-blocking handles when all", "C03"),
    ("strided and vector transfers on one node", "C05"),
    ("non-blocking strided accumulate scales complex", "C03"),
    ("GA_Lock and GA_Unlock", "C04"),
    ("accept waits on requests", "C03"),
    ("GA_Fence covers scatter", "C05"),
    ("locating blocks finds", "C06"),
    ("C GA_Get_proc_grid", "C06"),
    ("locate_region on block-cyclic grids", "C06"),
    ("C NGA_Access_ghost_element", "C07"),
    ("NGA_Get_ghost_block reads", "C07"),
    ("C NGA_Update_ghost_dir counts", "C07"),
    ("update3_ghosts sends", "C07"),
    ("ghost updates check interior", "C07"),
    ("NGA_Update_ghost_dir skips", "C07"),
    ("local iterator skips processes", "C08"),
    ("element-wise product of complex", "C08"),
    ("element-wise operations use the leading", "C08"),
    ("GA_Add takes the data type", "C08"),
    ("GA_Median_patch changes only", "C08"),
    ("dot products use the leading", "C08"),
    ("GA_Copy_patch from a larger group", "C08"),
    ("GA_Add_patch uses the leading", "C08"),
    ("Step_max of integer", "C09"),
    ("Step_max_patch and GA_Step_bound", "C09"),
    ("GA_Norm1 and GA_Norm_inf", "C09"),
    ("Scale_rows and GA_Scale_cols", "C09"),
    ("GA_Zero_diagonal starts", "C09"),
    ("GA_Select_elem does not reuse", "C09"),
    ("GA_Select_elem accepts", "C09"),
    ("selects long long", "C09"),
    ("sel_scope ignores processes", "C09"),
    ("honours the patches of A, B and C", "C10"),
    ("with beta zero does not read C", "C10"),
    ("matmul_patch_alt transposes", "C10"),
    ("GA_List_nodeid allocates", "C12"),
    ("on the world handle use the world", "C12"),
    ("product reduction of complex", "C12"),
    ("GA_Pgroup_duplicate gives", "C12"),
    ("destroying a processor group twice", "C12"),
    ("MA refuses requests", "C16"),
    ("MA_free_heap_piece keeps", "C16"),
    ("MA_inquire_heap_no_partition counts", "C16"),
    ("MA stack and heap inquiries", "C16"),
    ("GA_Freemem reads the size", "C13"),
    ("GA_Getmem returns no memory", "C13"),
    ("setting a memory limit takes", "C13"),
    ("GA_Inquire_memory does not count", "C13"),
    ("refused GA_Overlay", "C13"),
    ("destroying an array that has no memory", "C13"),
    ("unsetting the read_cache property", "C13"),
    ("setting the read_only property keeps", "C13"),
    ("destroying a read_only array frees", "C13"),
    ("duplicating an array does not share", "C13"),
    ("refuse names that do not fit", "C13"),
    ("GA_Assemble_duplicate has its own", "C13"),
    ("unsetting the read_only property frees", "C13"),
    ("unsetting the read_only property restores", "C13"),
    ("strided ARMCI transfers are contiguous", "C19"),
    ("comex.h can be included", "C19"),
    ("the root of the armci_msg_bintree", "C19"),
    ("comex_test makes progress", "C19"),
    ("shared memory of mpi-pt is named", "C19"),
    ("vector accumulates on mpi3", "C19"),
    ("barriers of NXTVAL", "C20"),
    ("WAITCOM waits", "C20"),
    ("Fortran interface of TCGMSG", "C20"),
    ("DRA_Init with the default number", "C17"),
    ("DRA_Open of a disk array that does not exist", "C17"),
    ("DRA_Terminate left the open disk arrays open", "C17"),
    ("a reopened disk array had a newline", "C17"),
    ("transposed disk array transfers", "C17"),
    ("asynchronous transfers of EAF memory files", "C18"),
    ("EAF_Read past the end of a memory file", "C18"),
    ("EAF_Probe asks for", "C18"),
    ("EAF memory files are found by name", "C18"),
    ("EAF_Truncate of a memory file", "C18"),
    ("EAF_Eof recognises", "C18"),
    ("the Fortran eaf_eof", "C18"),
    ("elio_errmsg read past", "C18"),
    ("the Fortran EAF calls refuse", "C18"),
    ("the second ga_bin_index on a tree", "C14"),
    ("ga_bin_sorter aborted on empty bins", "C14"),
    ("ga_bin_sorter read the ranges of bins before", "C14"),
    ("ga_bin_sorter never destroyed", "C14"),
    ('ga_sprs_array_matvec_multiply of complex matrices multiplied the vector by itself', "C15"),
    ('ga_sprs_array_matvec_multiply demanded a product as long as the second dimension', "C15"),
    ('ga_sprs_array_matvec_multiply added uninitialised memory for empty row blocks', "C15"),
    ('ga_sprs_array_get_diag only looked at one column block, even an empty one', "C15"),
    ('ga_sprs_array_diag_right_multiply compared the vector with the wrong dimension', "C15"),
    ('ga_sprs_array_get_block left the pointers of empty blocks undefined', "C15"),
    ('ga_sprs_array_matmat_multiply read 32-bit indices as 64-bit ones', "C15"),
    ('ga_sprs_array_matmat_multiply leaked blocks that meet an empty block', "C15"),
    ('ga_sprs_array_matmat_multiply wrote behind the offsets of empty row blocks', "C15"),
    ('ga_sprs_array_sprsdns_multiply assumed as many columns in B as in A', "C15"),
    ('ga_sprs_array_dnssprs_multiply compared the columns of A with those of B', "C15"),
    ('ga_sprs_array_dnssprs_multiply took the columns of its product from the rows of B', "C15"),
    ('ga_sprs_array_dnssprs_multiply read the wrong imaginary parts in Fortran order', "C15"),
    ('ga_sprs_array_dnssprs_multiply leaked every block of B', "C15"),
    ('ga_sprs_array_sprsdns_multiply leaked its distribution buffers', "C15"),
    ('ga_sprs_array_create_from_sparse swapped the dimensions of the dense array', "C15"),
    ('ga_sprs_array_create_from_sparse shifted the row blocks in Fortran order', "C15"),
    ('ga_sprs_array_create_from_sparse ignored the process group', "C15"),
    ('ga_sprs_array_create_from_dense failed on processes without dense data', "C15"),
    ('ga_sprs_array_matvec_multiply accumulated with a factor of the wrong type', "C15"),
    ('ga_sprs_array_export wrote complex values of the wrong elements', "C15"),
    ('ga_sprs_array_export left out the values of long long matrices', "C15"),
    ('ga_sprs_array_count_sketch summed the row counts as the wrong type', "C15"),
    ('ga_sprs_array_count_sketch used the position of a block instead of its column', "C15"),
    ('ga_sprs_array_count_sketch leaked its distribution buffers', "C15"),
    ('ga_sprs_array_export failed when a process holds no elements', "C15"),
    ('ga_sprs_array_duplicate failed when a process holds no elements', "C15"),
    ('ga_sprs_array_export wrote a header that is not Matrix Market', "C15"),
    ('ga_sprs_array_scale failed when a process holds no elements', "C15"),
    ('ga_sprs_array_matmat_multiply failed when a process holds no elements of the product', "C15"),
    ('ga_sprs_array_sprsdns_multiply looped over the wrong columns in Fortran order', "C15"),
    ('GA_Lu_solve always failed without ScaLAPACK although ga_lu_solve works', "C11"),
    ("nga_locate answered an owner for subscripts outside block-cyclic", "C24"),
    ("nga_locate_nnodes and nga_locate_region left the count undefined", "C24"),
    ("fill_patch, zero_patch and scale_patch accepted patches", "C24"),
    ("put, get and accumulate accepted regions outside block-cyclic", "C24"),
    ("abs_value_patch, add_constant_patch and recip_patch accepted", "C24"),
    ("ga_symmetrize accepted block-cyclic matrices", "C24"),
    ("nga_read_inc looked up an owner for subscripts outside", "C24"),
    ("matrix operations given an array of more than two dimensions", "C24"),
    ("vector and bin operations given arrays of more than one dimension", "C24"),
    ("ga_pgroup_destroy freed the group before refusing", "C24"),
    ("ga_zero_patch in Fortran zeroed", "C21"),
    ("ga_iscal_patch and nga_iscale_patch rejected", "C21"),
    ("get_array_name refused allocated", "C21"),
    ("two-dimensional ga_scatter_acc permuted", "C21"),
    ("GP_Get_size, GP_Get and GP_Put failed on processes", "C25"),
    ("GP_Gather and GP_Scatter freed undefined", "C25"),
    ("GP_Gather and GP_Scatter added up 32-bit", "C25"),
    ("GP_Put compared the wrong sizes", "C25"),
    ("GP_Put and GP_Get with user buffers did not", "C25"),
    ("GP_Put and GP_Get leaked", "C25"),
    ("GP_Memzero failed", "C25"),
    ("a get served from the read cache ignored", "C26"),
]
FINDINGS = [
    dict(property="C04", id="K01", key="rdinc-increment-over-int",
         what="NGA_Read_inc truncates increments that do not fit an int (ARMCI_Rmw takes an int), so the counter moves by the wrong amount"),
]
