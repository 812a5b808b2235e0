// The library once more, compiled without instrumentation, for the rounds of a guided search (see do_hunt in world.cpp).
#include "api.hpp"
extern "C" unsigned char* plain_compress(Req*q,size_t*size){ return glue_compress(*q,*size); }
extern "C" int plain_decompress(Req*q,const unsigned char*c,void**outs){ return glue_decompress(*q,c,outs); }
