/* A stand-in for TinyCC's library, which is not available offline: the same
   interface, with the generated C compiled by the system compiler and loaded
   with dlopen().  Only what lib/libloong/tr_compiler.cpp uses. */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct TCCState TCCState;
#define TCC_OUTPUT_MEMORY 1
#define TCC_RELOCATE_AUTO (void*)1
TCCState* tcc_new(void);
void tcc_delete(TCCState*);
int tcc_set_output_type(TCCState*, int);
void tcc_define_symbol(TCCState*, const char* sym, const char* value);
int tcc_set_options(TCCState*, const char*);
int tcc_add_include_path(TCCState*, const char*);
int tcc_add_symbol(TCCState*, const char* name, const void* val);
int tcc_compile_string(TCCState*, const char*);
int tcc_relocate(TCCState*, void*);
void* tcc_get_symbol(TCCState*, const char*);
#ifdef __cplusplus
}
#endif
