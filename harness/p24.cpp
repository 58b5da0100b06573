#include "mesh.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexThermal.hpp"
#include "SimplexThermomechanics.hpp"
#include "EssentialBCs.hpp"
#include "NaturalBCs.hpp"
#include "BodyLoads.hpp"
#include "alg/Basis.cpp"
#include "alg/Cubature.cpp"
#include "SimplexFadTypes.hpp"
using namespace Plato;
typedef Teuchos::ParameterList PL;
#define MA int ne, int nv, const I1& conn, const V1& x
static PL ebc(const char* type, const char* sides, int index, int hasv, double v) { PL p; p.set<std::string>("Type", type); p.set<std::string>("Sides", sides); if(index >= 0) p.set<int>("Index", index); if(hasv) p.set<double>("Value", v); return p; }
// one condition, direct
#define EB1(TAG, P) \
HV(h_e1##TAG, const I1& s, const char* name, int index, double v, double f, int off, I1& d, V1& w) { Omega_h::MeshSets m; m[Omega_h::NODE_SET]["one"] = Omega_h::LOs(s); PL p = ebc("Fixed Value", name, index, 1, v); EssentialBC<P> b("b", p, f); b.get(m, d, w, off); } EV \
HI(h_el##TAG, const I1& s, const char* name) { Omega_h::MeshSets m; m[Omega_h::NODE_SET]["one"] = Omega_h::LOs(s); PL p = ebc("Fixed Value", name, 0, 1, 1.0); EssentialBC<P> b("b", p); return b.get_length(m); } EI \
HV(h_e2##TAG, const I1& s, const I1& t, const char* ty1, const char* ty2, int i1, int i2, double v1, double v2, I1& d, V1& w) { \
  Omega_h::MeshSets m; m[Omega_h::NODE_SET]["one"] = Omega_h::LOs(s); m[Omega_h::NODE_SET]["two"] = Omega_h::LOs(t); \
  PL p; p.sublist("A") = ebc(ty1, "one", i1, std::string(ty1) != "Zero Value", v1); p.sublist("B") = ebc(ty2, "two", i2, std::string(ty2) != "Zero Value", v2); EssentialBCs<P> b(p, m); b.get(d, w); } EV \
HV(h_es##TAG, const I1& s, const I1& t, int i1, int i2, double v1, double v2, int k, double f, I1& d, V1& w) { \
  Omega_h::MeshSets m; m[Omega_h::NODE_SET]["one"] = Omega_h::LOs(s); m[Omega_h::NODE_SET]["two"] = Omega_h::LOs(t); \
  PL p; p.sublist("A") = ebc("Fixed Value", "one", i1, 1, v1); p.sublist("B") = ebc("Fixed Value", "two", i2, 1, v2); std::map<int, double> q; q[k] = f; EssentialBCs<P> b(p, m, q); b.get(d, w); } EV
EB1(m2, SimplexMechanics<2>) EB1(m3, SimplexMechanics<3>) EB1(t3, SimplexThermal<3>) EB1(tm3, SimplexThermomechanics<3>)
HV(h_enov, const I1& s, int kind) { Omega_h::MeshSets m; PL p; p.set<std::string>("Sides", "one"); if(kind == 1) p.set<double>("Value", 1.0); if(kind == 2) p.set<std::string>("Function", "t"); if(kind == 3) { p.set<double>("Value", 1.0); p.set<std::string>("Function", "t"); } EssentialBC<SimplexMechanics<2>> b("b", p); } EV

// sides
#define FACE(D) \
HI(h_fo##D, const I1& e2f, int c, int f) { return get_face_ordinal<D>(c, f, Omega_h::LOs(e2f)); } EI \
HV(h_fm##D, const I1& cv, const I1& fv, int c, int f, I1& o) { CreateFaceLocalNode2ElemLocalNodeIndexMap<D> g; int l[D]; for(int k = 0; k < D; ++k) l[k] = 0; g(c, f, Omega_h::LOs(cv), Omega_h::LOs(fv), l); for(int k = 0; k < D; ++k) o(k) = l[k]; } EV \
HV(h_un##D, MA, int c, int f, V1& o) { Omega_h::Mesh m; vp_mesh(m, D, ne, nv, conn, x); NodeCoordinate<D> q(&m); auto n = unit_normal_vector(c, f, q); for(int k = 0; k < D; ++k) o(k) = n(k); } EV
FACE(1) FACE(2) FACE(3)
#define JAC(D) \
HV(h_sj##D, const V3& cfg, const I1& loc, V3& j) { ComputeSurfaceJacobians<D> g; CELLS((int)cfg.extent(0), int l[D]; for(int k = 0; k < D; ++k) l[k] = loc(k); g(i, i, l, cfg, j)); } EV \
HV(h_sw##D, double mul, const V3& j, V1& o) { ComputeSurfaceIntegralWeight<D> g; CELLS((int)o.extent(0), double w = 0; g(i, mul, j, w); o(i) = w); } EV
JAC(2) JAC(3)
HV(h_sw1, double mul, const V3& j, V1& o) { ComputeSurfaceIntegralWeight<1> g; CELLS((int)o.extent(0), double w = 0; g(i, mul, j, w); o(i) = w); } EV
HI(h_sideset, const I1& s, const char* name) { Omega_h::MeshSets m; m[Omega_h::SIDE_SET]["one"] = Omega_h::LOs(s); auto r = get_face_ordinals(m, name); return r.size(); } EI
HI(h_nbt, const char* t) { return natural_boundary_condition_type(t); } EI

// whole surface integrals over a side set: side f is connected to the single cell fe(f)
#define SA MA, const I1& fv, const I1& fe, const I1& down, const I1& set
#define SS(D) I1 map("map", fe.extent(0) + 1); CELLS((int)map.extent(0), map(i) = i); Omega_h::MeshSets ms; ms[Omega_h::SIDE_SET]["one"] = Omega_h::LOs(set); ms[Omega_h::ELEM_SET]["b"] = Omega_h::LOs(set); Omega_h::Mesh m; vp_mesh(m, D, ne, nv, conn, x); \
  m.sv = Omega_h::LOs(fv); m.up.a2ab = Omega_h::LOs(map); m.up.ab2b = Omega_h::LOs(fe); m.down = Omega_h::LOs(down); PL pl; PL& dl = pl.sublist("Spatial Model").sublist("Domains").sublist("d"); dl.set<std::string>("Element Block", "b"); dl.set<std::string>("Material Model", "mat"); SpatialModel sm(m, ms, pl); V2 st, ct
#define SURF(D, N, K, O) \
HV(h_sl##D##N##K##O, SA, const V3& cfg, const V1& flux, double sc, V2& r) { SS(D); Omega_h::Vector<N> f; for(int k = 0; k < N; ++k) f[k] = flux(k); SurfaceLoadIntegral<D, N, K, O> g("one", f); g(sm, st, ct, cfg, r, sc); } EV
SURF(2, 2, 2, 0) SURF(3, 3, 3, 0) SURF(3, 1, 4, 3) SURF(2, 1, 1, 0) SURF(1, 1, 1, 0)
#define PRES(D, N, K, O) \
HV(h_sp##D##N##K##O, SA, const V3& cfg, const V1& flux, double sc, V2& r) { SS(D); Omega_h::Vector<N> f; for(int k = 0; k < N; ++k) f[k] = flux(k); SurfacePressureIntegral<D, N, K, O> g("one", f); g(sm, st, ct, cfg, r, sc); } EV
PRES(2, 2, 2, 0) PRES(3, 3, 3, 0) PRES(2, 2, 3, 0)
// parsing of natural conditions (Component, Index, Values) followed by the integral
#define NBC(D, N, K, O) \
HV(h_nb##D##N##K##O, SA, const V3& cfg, const char* type, const char* comp, int index, int kind, double v, const V1& vs, double sc, V2& r) { SS(D); PL p; PL& q = p.sublist("L"); q.set<std::string>("Sides", "one"); if(*type) q.set<std::string>("Type", type); \
  if(kind & 1) q.set<double>("Value", v); if(kind & 2) { Teuchos::Array<double> a(N, 0.0); for(int k = 0; k < N; ++k) a[k] = vs(k); q.set("Values", a); } if(index >= 0) q.set<int>("Index", index); if(*comp) q.set<std::string>("Component", comp); \
  NaturalBCs<D, N, K, O> b(p); b.get(sm, st, ct, cfg, r, sc); } EV
NBC(2, 2, 2, 0) NBC(3, 3, 3, 0) NBC(3, 1, 4, 3) NBC(2, 2, 3, 0)

// body loads
#define BL(D, TAG, P) \
HV(h_bl##TAG, MA, const I1& cells, int index, const V1& k, const V2& z, double sc, V2& r) { Domain dm(D, ne, nv, conn, x, cells); auto s = dm.get(); double* c = Omega_h::expr_coef(); for(int i = 0; i < 4; ++i) c[i] = k(i); \
  PL p; PL& q = p.sublist("L"); if(index >= 0) q.set<int>("Index", index); q.set<std::string>("Function", "f"); using E = ResidualTypes<P>; BodyLoads<E, P> b(p); V2 st; b.get(s, st, z, r, sc); } EV
BL(2, m2, SimplexMechanics<2>) BL(3, m3, SimplexMechanics<3>) BL(3, t3, SimplexThermal<3>) BL(1, m1, SimplexMechanics<1>)
