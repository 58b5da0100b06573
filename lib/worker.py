"""Runs contract cases in the natively compiled code (one process, restarted by the caller after a crash)."""
import sys, json, ctypes as C, os
def main():
    lib = C.CDLL(sys.argv[1])
    out = os.fdopen(os.dup(1), 'w'); dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1)
    lib.vp_view.restype = C.c_void_p
    lib.vp_init()
    threw = C.c_int.in_dll(lib, 'vp_threw')
    for line in sys.stdin:
        if not line.strip(): continue
        case = json.loads(line)
        f = getattr(lib, case['fn'])
        args = []; types = []; views = []
        for a in case['args']:
            if 'view' in a:
                d = (C.c_int * 4)(*(a['dims'] + [0] * (4 - len(a['dims']))))
                x = (C.c_double * max(1, len(a['data'])))(*[float(t) for t in a['data']])
                p = C.c_void_p(lib.vp_view(a['rank'], 1 if a['sort'] == 'int' else 0, 1 if a['null'] else 0, d, x))
                args.append(p); views.append((a, p)); types.append(C.c_void_p)
            elif 'text' in a: args.append(C.c_char_p(a['text'].encode())); types.append(C.c_char_p)
            elif 'int' in a: args.append(C.c_int(a['int'])); types.append(C.c_int)
            else: args.append(C.c_double(a['real'])); types.append(C.c_double)
        f.argtypes = types
        f.restype = {'void': None, 'real': C.c_double, 'int': C.c_int, 'bool': C.c_bool}[case['ret']]
        threw.value = 0
        v = f(*args)
        res = {'kind': 'throw' if threw.value else 'ret', 'value': v if not isinstance(v, bool) else int(v), 'views': {}}
        for a, p in views:
            sort = 1 if a['sort'] == 'int' else 0
            d = (C.c_int * 4)()
            lib.vp_dims(p, a['rank'], sort, d)
            dims = [d[i] for i in range(a['rank'])]
            n = 1
            for t in dims: n *= t
            x = (C.c_double * max(1, n))()
            lib.vp_read(p, a['rank'], sort, x)
            res['views'][a['view']] = {'dims': dims, 'data': [int(t) if sort else t for t in x[:n]]}
            lib.vp_free(p, a['rank'], sort)
        out.write(json.dumps(res) + '\n'); out.flush()
main()
