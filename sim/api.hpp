// Uniform view of the library's entry points, implemented in glue.cpp / glue3d.cpp (compiled like the library itself).
#pragma once
#include <cstddef>
#include <cstdint>
enum Codec { C_2D=0, C_2DEB, C_3D, C_3DEB, C_PWR, C_PWREB,
  C_OFF, C_OFFLOG, C_ON, C_ONABS, C_RELAX, C_ONLOG, C_BILIN, C_SZ3,
  C_3OFFLOG, C_3ONLOG, C_3ABS, C_3UNS, C_N };
struct Req { int codec; int dbl; size_t r1,r2,r3; double eb; int bs; int ind; int transpose; 
  const void* in[3]; const double* ebs; double* logebs; const int* tets; int ntets; const void* points; };
// -> compressed bytes (malloc'ed by the library), nullptr if unsupported
unsigned char* glue_compress(Req&q,size_t&size);
// outs: in/out pointers (vector codecs release a non-null one); returns number of arrays
int glue_decompress(Req&q,const unsigned char*c,void**outs);
bool glue_has3d();
unsigned char* glue3_compress(Req&q,size_t&size);
unsigned long glue_lossless_c(unsigned char*d,unsigned long n,unsigned char**o,int level);
unsigned long glue_lossless_d(unsigned char*c,unsigned long n,unsigned char**o,unsigned long target);
unsigned long glue_lossless_d64(unsigned char*c,unsigned long n,unsigned char**o);
int glue_is_lossless(unsigned char*c,size_t n);
void glue_huff_enc(size_t states,const int*t,size_t n,unsigned char*&pos);
int* glue_huff_dec(size_t states,size_t n,const unsigned char*&pos);
void glue_bits_enc(const unsigned char*t,size_t n,unsigned char*&pos);
unsigned char* glue_bits_dec(size_t n,const unsigned char*&pos);
unsigned char* glue_read_u8(const char*f,size_t&n); float* glue_read_f32(const char*f,size_t&n); double* glue_read_f64(const char*f,size_t&n); int* glue_read_i32(const char*f,size_t&n);
void glue_readbuf_u8(char*f,size_t&n,unsigned char*d); void glue_readbuf_f32(char*f,size_t&n,float*d); void glue_readbuf_f64(char*f,size_t&n,double*d);
void glue_write_u8(const char*f,unsigned char*d,size_t n); void glue_write_f32(const char*f,float*d,size_t n); void glue_write_f64(const char*f,double*d,size_t n);
extern "C" { int prog_sz_test(int,char**); int prog_2d_with_eb(int,char**); int prog_cp2d(int,char**); int prog_test_with_eb(int,char**); int prog_cp3d(int,char**) __attribute__((weak)); int prog_cp3du(int,char**) __attribute__((weak)); }
