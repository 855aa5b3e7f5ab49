/* first object in the link: marks the start of the library's writable data */
char lib_data_begin[16] = {1};
char lib_bss_begin[16];
__thread char lib_tdata_begin[16] = {1};
__thread char lib_tbss_begin[16];
char *lib_tls_begin(int bss) { return bss ? lib_tbss_begin : lib_tdata_begin; }
