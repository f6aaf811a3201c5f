// Primitives the analysis interprets (never linked, never executed).  A string value, a document node and a path are each one number.
#ifndef GALS_VERIF_PRIM
#define GALS_VERIF_PRIM
extern "C" {
void gals_model_throw(const char*) __attribute__((noreturn));
// strings
long gals_str_lit(const char*);                // value of a C string
long gals_str_bytes(const char*, long);        // value of n bytes
long gals_str_fill(long, long);                // n times a character
const char* gals_str_c(long);                  // its characters
bool gals_str_eq(long, long);
int gals_str_cmp(long, long);
long gals_str_cat(long, long);
long gals_str_chr(long);                       // one character as string
long gals_str_len(long);
long gals_str_at(long, long);
long gals_str_sub(long, long, long);
long gals_str_find(long, long, long, long);
long gals_str_setat(long, long, long);
long gals_str_num_d(double);
long gals_str_num_i(long);
double gals_str_to_d(long);
long gals_str_to_i(long);
// output
void gals_out_s(void*, long);
void gals_out_d(void*, double);
void gals_out_i(void*, long);
void gals_out_c(void*, long);
void gals_out_p(void*, const void*);
void gals_out_fmt(void*, long, long);
void gals_out_flush(void*);
void gals_out_copy(void*, void*);
void gals_file_open(void*, long, long);
void gals_file_close(void*);
bool gals_file_is_open(void*);
bool gals_stream_ok(void*);
long gals_stream_text(void*);
void gals_in_s(void*, long*);
void gals_in_d(void*, double*);
void gals_in_i(void*, long*);
// documents
long gals_yaml_file(long);
long gals_yaml_text(long);
long gals_yaml_key(long, long);
long gals_yaml_item(long, long);
bool gals_yaml_defined(long);
bool gals_yaml_kind(long, long);
long gals_yaml_size(long);
double gals_yaml_d(long);
float gals_yaml_f(long);
long gals_yaml_i(long, long);
long gals_yaml_s(long);
bool gals_yaml_b(long);
// file system
bool gals_fs(long op, long path);
long gals_fs_val(long op, long path, long arg);
}
#endif
