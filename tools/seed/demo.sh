#!/bin/bash
# run with cwd /repo: compiles demo.cpp against the headers of the tree and runs it
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
export OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_plm_rsh_agent=true
mpicxx -std=c++14 -w -O1 -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY \
  -include /opt/vp/plato/compat.hpp -I"$PWD/src" -I"$PWD/src/alg" -I/usr/include/trilinos -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi \
  -o "$work/demo" "$here/demo.cpp" $(grep -ho '^// needs: .*' "$here/demo.cpp" | sed 's#^// needs: ##') \
  -ltrilinos_epetra -ltrilinos_kokkoskernels -ltrilinos_kokkosalgorithms -ltrilinos_kokkoscontainers -ltrilinos_kokkoscore -ltrilinos_sacado \
  -ltrilinos_teuchoskokkoscomm -ltrilinos_teuchoskokkoscompat -ltrilinos_teuchosremainder -ltrilinos_teuchosnumerics -ltrilinos_teuchoscomm \
  -ltrilinos_teuchosparameterlist -ltrilinos_teuchosparser -ltrilinos_teuchoscore || exit 99
cd "$work" && timeout 120 ./demo
