// Stand-in for the part of the Omega_h mesh library that platoanalyze's headers name. The library itself is not installed.
// It has no behaviour of its own beyond: arrays are views, small vectors and matrices are their mathematical definitions, and the
// mesh hands out the arrays the harness gave it. Everything platoanalyze does with them is the repository's own text.
#pragma once
#include <string>
#include <map>
#include <array>
#include <vector>
#include <Kokkos_Core.hpp>
#include <cmath>
namespace Omega_h {
typedef int LO; typedef int Int; typedef double Real; typedef signed char I8; typedef long GO;
enum { VERT = 0, EDGE = 1, FACE = 2, REGION = 3 };
enum { ELEM_SET, SIDE_SET, NODE_SET, NSET_TYPES };
typedef Kokkos::DefaultExecutionSpace::memory_space mem_t;
template<typename T> struct Write {
  Kokkos::View<T*, mem_t> v;
  Write() {}
  Write(Kokkos::View<T*, mem_t> a) : v(a) {}
  Write(LO n, std::string const& s = "") : v(s, n) {}
  KOKKOS_INLINE_FUNCTION LO size() const { return v.extent(0); }
  KOKKOS_INLINE_FUNCTION T& operator[](LO i) const { return v(i); }
  Kokkos::View<T*, mem_t> view() const { return v; }
  T get(LO i) const { return v(i); }
  void set(LO i, T x) const { v(i) = x; }
  bool exists() const { return true; }
};
template<typename T> struct Read {
  Kokkos::View<T*, mem_t> v;
  Read() {}
  Read(Kokkos::View<T*, mem_t> a) : v(a) {}
  Read(Write<T> a) : v(a.v) {}
  KOKKOS_INLINE_FUNCTION LO size() const { return v.extent(0); }
  KOKKOS_INLINE_FUNCTION T operator[](LO i) const { return v(i); }
  T get(LO i) const { return v(i); }
  Kokkos::View<const T*, mem_t> view() const { return v; }
};
struct LOs : Read<LO> { LOs() {} LOs(Kokkos::View<LO*, mem_t> a) : Read<LO>(a) {} LOs(Write<LO> a) : Read<LO>(a) {} LOs(Read<LO> a) : Read<LO>(a) {} };
struct Reals : Read<Real> { Reals() {} Reals(Kokkos::View<Real*, mem_t> a) : Read<Real>(a) {} Reals(Write<Real> a) : Read<Real>(a) {} Reals(Read<Real> a) : Read<Real>(a) {} };
template<typename T> struct HostWrite {
  std::vector<T> d; HostWrite(LO n) : d(n) {}
  T& operator[](LO i) { return d[i]; } LO size() const { return d.size(); }
  Write<T> write() const { Write<T> w(d.size(), ""); for(LO i = 0; i < (LO)d.size(); ++i) w[i] = d[i]; return w; }
};
template<typename T, Int n> struct Few {
  T a[n > 0 ? n : 1];
  KOKKOS_INLINE_FUNCTION Few() {}
  KOKKOS_INLINE_FUNCTION T& operator[](Int i) { return a[i]; }
  KOKKOS_INLINE_FUNCTION T const& operator[](Int i) const { return a[i]; }
  KOKKOS_INLINE_FUNCTION Int size() const { return n; }
};
template<Int n> struct Vector : Few<Real, n> {
  KOKKOS_INLINE_FUNCTION Vector() {}
  inline Vector(std::initializer_list<Real> l) { Int k = 0; for(auto p = l.begin(); p != l.end(); ++p, ++k) this->a[k] = *p; }
  KOKKOS_INLINE_FUNCTION Real& operator()(Int i) { return this->a[i]; }
  KOKKOS_INLINE_FUNCTION Real const& operator()(Int i) const { return this->a[i]; }
};
template<Int m, Int n> struct Matrix : Few<Vector<m>, n> {   // columns
  KOKKOS_INLINE_FUNCTION Matrix() {}
  KOKKOS_INLINE_FUNCTION Real& operator()(Int i, Int j) { return this->a[j].a[i]; }
  KOKKOS_INLINE_FUNCTION Real const& operator()(Int i, Int j) const { return this->a[j].a[i]; }
};
template<Int n> using Tensor = Matrix<n, n>;
template<Int n> KOKKOS_INLINE_FUNCTION Vector<n> operator+(Vector<n> const& x, Vector<n> const& y) { Vector<n> r; for(Int i = 0; i < n; ++i) r[i] = x[i] + y[i]; return r; }
template<Int n> KOKKOS_INLINE_FUNCTION Vector<n> operator-(Vector<n> const& x, Vector<n> const& y) { Vector<n> r; for(Int i = 0; i < n; ++i) r[i] = x[i] - y[i]; return r; }
template<Int n> KOKKOS_INLINE_FUNCTION Vector<n> operator*(Vector<n> const& x, Real s) { Vector<n> r; for(Int i = 0; i < n; ++i) r[i] = x[i] * s; return r; }
template<Int n> KOKKOS_INLINE_FUNCTION Vector<n> operator*(Real s, Vector<n> const& x) { return x * s; }
template<Int n> KOKKOS_INLINE_FUNCTION Real operator*(Vector<n> const& x, Vector<n> const& y) { Real r = x[0] * y[0]; for(Int i = 1; i < n; ++i) r += x[i] * y[i]; return r; }
template<Int m, Int n> KOKKOS_INLINE_FUNCTION Vector<m> operator*(Matrix<m, n> const& A, Vector<n> const& x) { Vector<m> r = A[0] * x[0]; for(Int j = 1; j < n; ++j) r = r + A[j] * x[j]; return r; }
KOKKOS_INLINE_FUNCTION Vector<3> cross(Vector<3> const& a, Vector<3> const& b) { Vector<3> r; r[0] = a[1] * b[2] - a[2] * b[1]; r[1] = a[2] * b[0] - a[0] * b[2]; r[2] = a[0] * b[1] - a[1] * b[0]; return r; }
KOKKOS_INLINE_FUNCTION Real determinant(Matrix<1, 1> const& m) { return m(0, 0); }
KOKKOS_INLINE_FUNCTION Real determinant(Matrix<2, 2> const& m) { return m(0, 0) * m(1, 1) - m(1, 0) * m(0, 1); }
KOKKOS_INLINE_FUNCTION Real determinant(Matrix<3, 3> const& m) { return cross(m[0], m[1]) * m[2]; }
KOKKOS_INLINE_FUNCTION Matrix<1, 1> invert(Matrix<1, 1> const& m) { Matrix<1, 1> r; r(0, 0) = 1.0 / m(0, 0); return r; }
KOKKOS_INLINE_FUNCTION Matrix<2, 2> invert(Matrix<2, 2> const& m) { Real d = determinant(m); Matrix<2, 2> r; r(0, 0) = m(1, 1) / d; r(0, 1) = -m(0, 1) / d; r(1, 0) = -m(1, 0) / d; r(1, 1) = m(0, 0) / d; return r; }
KOKKOS_INLINE_FUNCTION Matrix<3, 3> invert(Matrix<3, 3> const& m) {
  Real d = determinant(m); Matrix<3, 3> r; Vector<3> x = cross(m[1], m[2]), y = cross(m[2], m[0]), z = cross(m[0], m[1]);
  for(Int j = 0; j < 3; ++j) { r(0, j) = x[j] / d; r(1, j) = y[j] / d; r(2, j) = z[j] / d; } return r; }
template<Int m, Int n> KOKKOS_INLINE_FUNCTION Matrix<n, m> transpose(Matrix<m, n> const& a) { Matrix<n, m> r; for(Int i = 0; i < m; ++i) for(Int j = 0; j < n; ++j) r(j, i) = a(i, j); return r; }
// outward normal of a side of a simplex, scaled as the library scales it: edge rotated by -90 degrees in 2D, half the cross product of two edges in 3D;
// which nodes a side has and in which order is the library's simplex table
KOKKOS_INLINE_FUNCTION Int side_node(Int dim, Int side, Int k) {
  const Int t2[3][2] = {{0, 1}, {1, 2}, {2, 0}}; const Int t3[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  return dim == 3 ? t3[side][k] : (dim == 2 ? t2[side][k] : side); }
KOKKOS_INLINE_FUNCTION Vector<2> get_side_vector(Few<Vector<2>, 3> const& p, Int s) { Vector<2> e = p[side_node(2, s, 1)] - p[side_node(2, s, 0)]; Vector<2> r; r[0] = e[1]; r[1] = -e[0]; return r; }
KOKKOS_INLINE_FUNCTION Vector<3> get_side_vector(Few<Vector<3>, 4> const& p, Int s) {
  Vector<3> a = p[side_node(3, s, 1)] - p[side_node(3, s, 0)], b = p[side_node(3, s, 2)] - p[side_node(3, s, 0)]; return cross(a, b) * 0.5; }
KOKKOS_INLINE_FUNCTION Vector<1> get_side_vector(Few<Vector<1>, 2> const& p, Int s) { Vector<1> r; r[0] = s == 0 ? -1.0 : 1.0; return r; }
struct Graph { LOs a2ab; LOs ab2b; };
struct Adj : Graph { Read<I8> codes; };
struct TagSet {};
typedef std::map<std::string, LOs> MeshDimSets;
typedef std::array<MeshDimSets, NSET_TYPES> MeshSets;
struct Mesh {
  Int d = 0; LO ne = 0, nv = 0; LOs ev, sv, down; Graph up, star; Reals x;
  Int dim() const { return d; }
  LO nelems() const { return ne; }
  LO nverts() const { return nv; }
  LOs ask_elem_verts() const { return ev; }
  LOs ask_verts_of(Int) const { return sv; }
  Reals coords() const { return x; }
  Graph ask_up(Int, Int) const { return up; }
  Adj ask_down(Int, Int) const { Adj a; a.ab2b = down; return a; }
  Graph ask_star(Int) const { return star; }
  template<typename A> void add_tag(Int, std::string const&, Int, A const&) const {}
  template<typename A> void set_tag(Int, std::string const&, A const&) const {}
  template<typename T> Read<T> get_array(Int, std::string const&) const { return Read<T>(); }
  void set_parting(Int) {}
  bool has_tag(Int, std::string const&) const { return false; }
};
template<typename T> KOKKOS_INLINE_FUNCTION T max2(T a, T b) { return a < b ? b : a; }
template<typename T> KOKKOS_INLINE_FUNCTION T min2(T a, T b) { return b < a ? b : a; }
const double PI = 3.14159265358979323846;
struct Library { Library(int* = nullptr, char*** = nullptr) {} };
namespace vtk { struct Writer { Writer() {} template<typename... A> Writer(A const&...) {} template<typename... A> void write(A const&...) {} }; template<typename... A> TagSet get_all_vtk_tags(A const&...) { return TagSet(); } }
namespace exodus { template<typename... A> void write(A const&...) {} }
template<typename... A> void classify_by_angles(A const&...) {}
// the library's own expression language, standing for any affine function of the registered coordinates: c[0] + c[1] x + c[2] y + c[3] z
struct any { Reals r; any() {} any(Reals a) : r(a) {} };
template<typename T> T any_cast(any const& a) { return T(a.r); }
inline double* expr_coef() { static double c[4] = {0, 0, 0, 0}; return c; }
struct ExprReader {
  LO n; Int nd; Reals v[3]; bool has[3] = {false, false, false};
  ExprReader(LO a, Int d) : n(a), nd(d) {}
  void register_variable(std::string const& s, any const& a) { if(s == "x") { v[0] = a.r; has[0] = true; } if(s == "y") { v[1] = a.r; has[1] = true; } if(s == "z") { v[2] = a.r; has[2] = true; } }
  any read_string(std::string const&, std::string const&) {
    Write<Real> w(n, "values"); double* c = expr_coef(); double c0 = c[0], c1 = c[1], c2 = c[2], c3 = c[3]; bool h0 = has[0], h1 = has[1], h2 = has[2]; Reals x = v[0], y = v[1], z = v[2];
    Kokkos::parallel_for("expression", Kokkos::RangePolicy<>(0, n), KOKKOS_LAMBDA(const int& i) { double t = c0; if(h0) t += c1 * x[i]; if(h1) t += c2 * y[i]; if(h2) t += c3 * z[i]; w[i] = t; });
    return any(Reals(w)); }
  void repeat(any&) {}
};
}
