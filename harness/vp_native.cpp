#include <csignal>
#include "vp.hpp"
extern "C" {
int vp_threw = 0;
void vp_init() { Kokkos::InitArguments a; Kokkos::initialize(a); }
void* vp_view(int rank, int sort, int null, const int* d, const double* x)
{
  if(sort == 1) {
    if(null) return new I1();
    auto v = new I1("v", d[0]);
    for(int i=0;i<d[0];i++) (*v)(i) = (int)x[i];
    return v;
  }
  if(rank == 1) {
    if(null) return new V1();
    auto v = new V1("v", d[0]);
    for(int i=0;i<d[0];i++) (*v)(i) = x[i];
    return v;
  }
  if(rank == 2) {
    if(null) return new V2();
    auto v = new V2("v", d[0], d[1]);
    for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) (*v)(i,j) = x[i*d[1]+j];
    return v;
  }
  if(null) return new V3();
  auto v = new V3("v", d[0], d[1], d[2]);
  for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) for(int k=0;k<d[2];k++) (*v)(i,j,k) = x[(i*d[1]+j)*d[2]+k];
  return v;
}
void vp_dims(void* p, int rank, int sort, int* d)
{
  if(sort == 1) { d[0] = ((I1*)p)->extent(0); return; }
  if(rank == 1) d[0] = ((V1*)p)->extent(0);
  else if(rank == 2) { d[0] = ((V2*)p)->extent(0); d[1] = ((V2*)p)->extent(1); }
  else { d[0] = ((V3*)p)->extent(0); d[1] = ((V3*)p)->extent(1); d[2] = ((V3*)p)->extent(2); }
}
void vp_read(void* p, int rank, int sort, double* x)
{
  int d[3]; vp_dims(p, rank, sort, d);
  if(sort == 1) { for(int i=0;i<d[0];i++) x[i] = (*(I1*)p)(i); return; }
  if(rank == 1) { for(int i=0;i<d[0];i++) x[i] = (*(V1*)p)(i); }
  else if(rank == 2) { for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) x[i*d[1]+j] = (*(V2*)p)(i,j); }
  else for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) for(int k=0;k<d[2];k++) x[(i*d[1]+j)*d[2]+k] = (*(V3*)p)(i,j,k);
}
void vp_free(void* p, int rank, int sort)
{
  if(sort == 1) delete (I1*)p; else if(rank == 1) delete (V1*)p; else if(rank == 2) delete (V2*)p; else delete (V3*)p;
}
}
