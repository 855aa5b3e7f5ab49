/* last object of the library's part of the link */
char lib_data_end[16] = {1};
char lib_bss_end[16];
__thread char lib_tdata_end[16] = {1};
__thread char lib_tbss_end[16];
char *lib_tls_end(int bss) { return bss ? lib_tbss_end : lib_tdata_end; }
