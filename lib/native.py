"""Native build and replay."""
import subprocess, json, os, sys
FLAGS = ('-std=c++14 -w -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED '
         '-DPLATO_PLASTICITY -include /opt/vp/plato/compat.hpp -I/repo/src -I/usr/include/trilinos '
         '-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'omega_h') + ' '
         '-I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi').split()
LIBS = ('-ltrilinos_epetra -ltrilinos_kokkoskernels -ltrilinos_kokkosalgorithms -ltrilinos_kokkoscontainers -ltrilinos_kokkoscore -ltrilinos_sacado '
        '-ltrilinos_teuchoskokkoscomm -ltrilinos_teuchoskokkoscompat -ltrilinos_teuchosremainder -ltrilinos_teuchosnumerics -ltrilinos_teuchoscomm '
        '-ltrilinos_teuchosparameterlist -ltrilinos_teuchosparser -ltrilinos_teuchoscore').split()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, OMPI_CXX='g++', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self', OMPI_MCA_pml='ob1',
           OMPI_MCA_plm_rsh_agent='true', LANG='C.UTF-8', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')

def start_ir(tu, work):
    """tu: harness file name; returns Popen"""
    src = os.path.join(VERIF, 'harness', tu)
    base = os.path.join(work, tu.replace('.cpp', ''))
    cmd = '/usr/bin/clang++-18 %s -I%s -O1 -Xclang -disable-llvm-passes -fno-strict-aliasing -S -emit-llvm -o %s.0.ll %s && opt-18 -passes=mem2reg -S %s.0.ll -o %s.ll && rm -f %s.0.ll' % (
        ' '.join(FLAGS), os.path.join(VERIF, 'harness'), base, src, base, base, base)
    return subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), base + '.ll'

def start_native(tu, work, extra=()):
    src = os.path.join(VERIF, 'harness', tu)
    so = os.path.join(work, 'lib' + tu.replace('.cpp', '') + '.so')
    cmd = ['mpicxx'] + FLAGS + ['-I' + os.path.join(VERIF, 'harness'), '-O1', '-fPIC', '-shared', '-DVP_NATIVE', '-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK', '-o', so, src,
           os.path.join(VERIF, 'harness', 'vp_native.cpp')] + list(extra) + LIBS
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV), so

def run_cases(so, cases, timeout=60):
    """results in order; crashes become {'kind': 'abort'}"""
    out = []
    i = 0
    while i < len(cases):
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'lib', 'worker.py'), so], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, env=ENV, cwd='/')
        try: so_, se = p.communicate('\n'.join(json.dumps(c) for c in cases[i:]) + '\n', timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); so_, se = p.communicate()
            lines = [l for l in so_.split('\n') if l.startswith('{')]
            out += [json.loads(l) for l in lines]
            while len(out) < len(cases): out.append({'kind': 'timeout', 'views': {}})
            return out
        lines = [l for l in so_.split('\n') if l.startswith('{')]
        out += [json.loads(l) for l in lines]
        i = len(out)
        if i < len(cases):
            if p.returncode == 0 or not lines and 'vp_init' in se: raise RuntimeError('native worker: ' + se[-500:])
            out.append({'kind': 'abort', 'msg': se.strip()[-300:], 'views': {}})
            i += 1
    return out
