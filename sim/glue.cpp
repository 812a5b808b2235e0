#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
#include "sz_compress_cp_preserve_2d.hpp"
#include "sz_decompress_cp_preserve_2d.hpp"
#include "sz_decompress_cp_preserve_3d.hpp"
#include "sz_lossless.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include "utils.hpp"
#include "api.hpp"
#define VEC(NAME) return q.dbl? NAME((const double*)q.in[0],(const double*)q.in[1],q.r1,q.r2,size,(bool)q.transpose,q.eb) : NAME((const float*)q.in[0],(const float*)q.in[1],q.r1,q.r2,size,(bool)q.transpose,q.eb);
unsigned char* __attribute__((weak)) glue3_compress(Req&,size_t&){ return NULL; }
bool __attribute__((weak)) glue_has3d(){ return false; }
unsigned char* glue_compress(Req&q,size_t&size){
  switch(q.codec){
  case C_2D: return q.bs? sz_compress_2d((const float*)q.in[0],q.r1,q.r2,q.eb,size,q.bs,(bool)q.ind) : sz_compress_2d((const float*)q.in[0],q.r1,q.r2,q.eb,size);
  case C_2DEB: if(q.dbl) return q.bs? sz_compress_2d_with_eb((const double*)q.in[0],q.ebs,q.r1,q.r2,size,q.bs,(bool)q.ind):sz_compress_2d_with_eb((const double*)q.in[0],q.ebs,q.r1,q.r2,size);
    return q.bs? sz_compress_2d_with_eb((const float*)q.in[0],q.ebs,q.r1,q.r2,size,q.bs,(bool)q.ind):sz_compress_2d_with_eb((const float*)q.in[0],q.ebs,q.r1,q.r2,size);
  case C_3D: if(q.dbl) return q.bs? sz_compress_3d((const double*)q.in[0],q.r1,q.r2,q.r3,q.eb,size,q.bs,(bool)q.ind):sz_compress_3d((const double*)q.in[0],q.r1,q.r2,q.r3,q.eb,size);
    return q.bs? sz_compress_3d((const float*)q.in[0],q.r1,q.r2,q.r3,q.eb,size,q.bs,(bool)q.ind):sz_compress_3d((const float*)q.in[0],q.r1,q.r2,q.r3,q.eb,size);
  case C_3DEB: if(q.dbl) return sz_compress_3d_with_eb((const double*)q.in[0],q.ebs,q.r1,q.r2,q.r3,size,q.bs?q.bs:8,(bool)q.ind);
    return sz_compress_3d_with_eb((const float*)q.in[0],q.ebs,q.r1,q.r2,q.r3,size,q.bs?q.bs:8,(bool)q.ind);
  case C_PWR: return q.bs? sz_compress_2d_pwr((const float*)q.in[0],q.r1,q.r2,q.eb,size,q.bs,(bool)q.ind):sz_compress_2d_pwr((const float*)q.in[0],q.r1,q.r2,q.eb,size);
  case C_PWREB: return q.bs? sz_compress_2d_pwr_with_eb((const float*)q.in[0],q.ebs,&q.logebs,q.r1,q.r2,size,q.bs,(bool)q.ind):sz_compress_2d_pwr_with_eb((const float*)q.in[0],q.ebs,&q.logebs,q.r1,q.r2,size);
  case C_OFF: VEC(sz_compress_cp_preserve_2d_offline)
  case C_OFFLOG: VEC(sz_compress_cp_preserve_2d_offline_log)
  case C_ON: VEC(sz_compress_cp_preserve_2d_online)
  case C_ONABS: VEC(sz_compress_cp_preserve_2d_online_abs)
  case C_RELAX: VEC(sz_compress_cp_preserve_2d_online_abs_relax_FN)
  case C_ONLOG: VEC(sz_compress_cp_preserve_2d_online_log)
  case C_BILIN: VEC(sz_compress_cp_preserve_2d_bilinear_online_log)
  case C_SZ3: VEC(sz3_compress_cp_preserve_2d_online_abs)
  default: return glue3_compress(q,size);
  } }
#define DVEC(NAME) if(q.dbl) NAME<double>(c,q.r1,q.r2,*(double**)&o[0],*(double**)&o[1]); else NAME<float>(c,q.r1,q.r2,*(float**)&o[0],*(float**)&o[1]); return 2;
#define DVEC3(NAME) if(q.dbl) NAME<double>(c,q.r1,q.r2,q.r3,*(double**)&o[0],*(double**)&o[1],*(double**)&o[2]); else NAME<float>(c,q.r1,q.r2,q.r3,*(float**)&o[0],*(float**)&o[1],*(float**)&o[2]); return 3;
int glue_decompress(Req&q,const unsigned char*c,void**o){
  switch(q.codec){
  case C_2D: o[0]=sz_decompress_2d<float>(c,q.r1,q.r2); return 1;
  case C_2DEB: if(q.dbl) o[0]=sz_decompress_2d_with_eb<double>(c,q.ebs,q.r1,q.r2); else o[0]=sz_decompress_2d_with_eb<float>(c,q.ebs,q.r1,q.r2); return 1;
  case C_3D: if(q.dbl) o[0]=sz_decompress_3d<double>(c,q.r1,q.r2,q.r3); else o[0]=sz_decompress_3d<float>(c,q.r1,q.r2,q.r3); return 1;
  case C_PWR: o[0]=sz_decompress_2d_pwr<float>(c,q.r1,q.r2); return 1;
  case C_PWREB: o[0]=sz_decompress_2d_pwr_with_eb<float>(c,q.ebs,q.r1,q.r2); return 1;
  case C_OFF: DVEC(sz_decompress_cp_preserve_2d_offline)
  case C_OFFLOG: DVEC(sz_decompress_cp_preserve_2d_offline_log)
  case C_ON: case C_ONABS: case C_RELAX: DVEC(sz_decompress_cp_preserve_2d_online)
  case C_ONLOG: case C_BILIN: DVEC(sz_decompress_cp_preserve_2d_online_log)
  case C_SZ3: DVEC(sz3_decompress_cp_preserve_2d_online)
  case C_3ONLOG: case C_3OFFLOG: DVEC3(sz_decompress_cp_preserve_3d_online_log)
  case C_3ABS: DVEC3(sz_decompress_cp_preserve_3d_online_abs)
  case C_3UNS: if(q.dbl) sz_decompress_cp_preserve_3d_unstructured<double>(c,(int)q.r1,(const double*)q.points,q.ntets,q.tets,*(double**)&o[0]); else sz_decompress_cp_preserve_3d_unstructured<float>(c,(int)q.r1,(const float*)q.points,q.ntets,q.tets,*(float**)&o[0]); return 1;
  } return 0; }
unsigned long glue_lossless_c(unsigned char*d,unsigned long n,unsigned char**o,int level){ return sz_lossless_compress(ZSTD_COMPRESSOR,level,d,n,o); }
unsigned long glue_lossless_d(unsigned char*c,unsigned long n,unsigned char**o,unsigned long t){ return sz_lossless_decompress(ZSTD_COMPRESSOR,c,n,o,t); }
unsigned long glue_lossless_d64(unsigned char*c,unsigned long n,unsigned char**o){ return sz_lossless_decompress65536bytes(ZSTD_COMPRESSOR,c,n,o); }
int glue_is_lossless(unsigned char*c,size_t n){ return is_lossless_compressed_data(c,n); }
void glue_huff_enc(size_t s,const int*t,size_t n,unsigned char*&p){ Huffman_encode_tree_and_data(s,t,n,p); }
int* glue_huff_dec(size_t s,size_t n,const unsigned char*&p){ return Huffman_decode_tree_and_data(s,n,p); }
void glue_bits_enc(const unsigned char*t,size_t n,unsigned char*&p){ convertIntArray2ByteArray_fast_1b_to_result_sz(t,n,p); }
unsigned char* glue_bits_dec(size_t n,const unsigned char*&p){ return convertByteArray2IntArray_fast_1b_sz(n,p,(n-1)/8+1); }
unsigned char* glue_read_u8(const char*f,size_t&n){ return readfile<unsigned char>(f,n);} float* glue_read_f32(const char*f,size_t&n){ return readfile<float>(f,n);} double* glue_read_f64(const char*f,size_t&n){ return readfile<double>(f,n);} int* glue_read_i32(const char*f,size_t&n){ return readfile<int>(f,n);} 
void glue_readbuf_u8(char*f,size_t&n,unsigned char*d){ readfile_to_buffer(f,n,d);} void glue_readbuf_f32(char*f,size_t&n,float*d){ readfile_to_buffer(f,n,d);} void glue_readbuf_f64(char*f,size_t&n,double*d){ readfile_to_buffer(f,n,d);} 
void glue_write_u8(const char*f,unsigned char*d,size_t n){ writefile(f,d,n);} void glue_write_f32(const char*f,float*d,size_t n){ writefile(f,d,n);} void glue_write_f64(const char*f,double*d,size_t n){ writefile(f,d,n);} 
