// Stand-in for the one FTK routine the 3D compressors use: barycentric inverse interpolation in a tetrahedron.
#pragma once
namespace ftk {
template<class T> inline T stub_det3(const T a[3],const T b[3],const T c[3]){ return a[0]*(b[1]*c[2]-b[2]*c[1])-a[1]*(b[0]*c[2]-b[2]*c[0])+a[2]*(b[0]*c[1]-b[1]*c[0]); }
template<class T> bool inverse_lerp_s3v3(const T V[4][3],T mu[4],T*cond,T threshold){
  T d[3][3]; for(int i=0;i<3;i++) for(int k=0;k<3;k++) d[i][k]=V[i][k]-V[3][k];
  T D=stub_det3(d[0],d[1],d[2]); if(cond) *cond=1; if(D==0) return false;
  T b[3]={-V[3][0],-V[3][1],-V[3][2]};
  mu[0]=stub_det3(b,d[1],d[2])/D; mu[1]=stub_det3(d[0],b,d[2])/D; mu[2]=stub_det3(d[0],d[1],b)/D; mu[3]=1-mu[0]-mu[1]-mu[2];
  for(int i=0;i<4;i++) if(!(mu[i]>=-threshold&&mu[i]<=1+threshold)) return false; return true; }
}
