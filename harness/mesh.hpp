// a mesh with the given cells, nodes and coordinates; one element block "b" holding the given cells
#pragma once
#include "vp.hpp"
#include <string>
#include <vector>
#include <sstream>
#include <Teuchos_ParameterList.hpp>
#include "AnalyzeMacros.hpp"
#include <Omega_h_mesh.hpp>
#include "SpatialModel.hpp"
static void vp_mesh(Omega_h::Mesh& m, int dim, int ne, int nv, const I1& conn, const V1& x) { m.d = dim; m.ne = ne; m.nv = nv; m.ev = Omega_h::LOs(conn); m.x = Omega_h::Reals(x); }
struct Domain {
  Omega_h::Mesh m; Omega_h::MeshSets s; Teuchos::ParameterList l;
  Domain(int dim, int ne, int nv, const I1& conn, const V1& x, const I1& cells) {
    vp_mesh(m, dim, ne, nv, conn, x); s[Omega_h::ELEM_SET]["b"] = Omega_h::LOs(cells); l.set<std::string>("Element Block", "b"); l.set<std::string>("Material Model", "mat"); }
  Plato::SpatialDomain get() { return Plato::SpatialDomain(m, s, l, "d"); }
};
