#include "sz_compress_cp_preserve_3d.hpp"
#include "api.hpp"
bool glue_has3d(){ return true; }
unsigned char* glue3_compress(Req&q,size_t&size){
  switch(q.codec){
  case C_3OFFLOG: if(q.dbl) return sz_compress_cp_preserve_3d_offline_log((const double*)q.in[0],(const double*)q.in[1],(const double*)q.in[2],q.r1,q.r2,q.r3,size,(bool)q.transpose,q.eb); return sz_compress_cp_preserve_3d_offline_log((const float*)q.in[0],(const float*)q.in[1],(const float*)q.in[2],q.r1,q.r2,q.r3,size,(bool)q.transpose,q.eb);
  case C_3ONLOG: if(q.dbl) return sz_compress_cp_preserve_3d_online_log((const double*)q.in[0],(const double*)q.in[1],(const double*)q.in[2],q.r1,q.r2,q.r3,size,(bool)q.transpose,q.eb); return sz_compress_cp_preserve_3d_online_log((const float*)q.in[0],(const float*)q.in[1],(const float*)q.in[2],q.r1,q.r2,q.r3,size,(bool)q.transpose,q.eb);
  case C_3ABS: if(q.dbl) return sz_compress_cp_preserve_3d_online_abs((const double*)q.in[0],(const double*)q.in[1],(const double*)q.in[2],q.r1,q.r2,q.r3,size,q.eb); return sz_compress_cp_preserve_3d_online_abs((const float*)q.in[0],(const float*)q.in[1],(const float*)q.in[2],q.r1,q.r2,q.r3,size,q.eb);
  case C_3UNS: if(q.dbl) return sz_compress_cp_preserve_3d_unstructured((int)q.r1,(const double*)q.points,(const double*)q.in[0],q.ntets,q.tets,size,q.eb); return sz_compress_cp_preserve_3d_unstructured((int)q.r1,(const float*)q.points,(const float*)q.in[0],q.ntets,q.tets,size,q.eb);
  } return 0; }
