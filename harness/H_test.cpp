#include "symi.h"
#include "math_lib.hpp"
using namespace ESKF_VIO_BACKEND;
extern "C" void t_skew() {
  Vector3 a, b; 
  for (int i=0;i<3;i++){ char n[8]={'a',char('0'+i),0}; a(i)=symi_f32(n,-4,4); n[0]='b'; b(i)=symi_f32(n,-4,4);} 
  Vector3 c = Utility::SkewSymmetricMatrix(a) * b;
  symi_check_eq(c(0), a(1)*b(2)-a(2)*b(1), 1e-5, "x");
  symi_check_eq(c(1), a(2)*b(0)-a(0)*b(2), 1e-5, "y");
  symi_check_eq(c(2), a(0)*b(1)-a(1)*b(0), 1e-5, "z");
  float q[4]; symi_unit_quat("q", q);
  Quaternion qq(q[0],q[1],q[2],q[3]);
  Vector3 r = qq * a, e = qq.normalized().toRotationMatrix() * a;
  for (int i=0;i<3;i++) symi_check_eq(r(i), e(i), 1e-4, "rot");
  symi_check_eq(r.norm(), a.norm(), 1e-4, "norm");
  if (a(0) > b(0)) symi_check(a(0)-b(0) > 0, "gt");
  if (a.norm() < 2.0f) symi_check(a(0) < 2.0f && a(1) > -2.0f, "bounded");
  if (a.norm() < 2.0f) symi_check(a(0) < 1.9f, "wrong");
  symi_check_eq(r(1), a(1), 1e-4, "wrong2");
  symi_reach("end");
}
extern "C" void t_vec() {
  uint32_t n = symi_u32("n", 0, 5), k = symi_u32("k", 0, 100);
  std::vector<int> v; for (uint32_t i=0;i<n;i++) v.push_back(i*3);
  std::map<uint32_t,int> m; m[17]=1; m[k]=2; 
  symi_check(v.size()==n, "size");
  symi_check(m.size()==2, "wrongmap");
  symi_check(m.find(k)->second==2, "found");
  double t = symi_f64("t", 0, 1e9), o = symi_f64("o", 0, 1e9);
  if (t > o) symi_check(t - o > 0, "sub");
}
