"""The Fortran module as gfortran compiles it: interfaces (.mod), member layout (DWARF), bodies (GIMPLE).

Nothing here reads the Fortran text; the flags are those that the CMake files of the tree choose.
"""
import os, re, gzip, json, shutil, subprocess, hashlib, tempfile
from . import build

def tree(variant):
    """configured (not built) CMake tree of a variant with the Fortran interface on; compiled module"""
    src = build.source(variant); v = build.VARIANTS[variant]; der = v.get('d', 1)
    with open(os.path.abspath(__file__), 'rb') as f: h = hashlib.sha256(f.read()).hexdigest()[:12]
    d = os.path.join(src, 'fortran-' + h)
    with build.Lock('fortran-%s-%s' % (variant, build.tree_hash())):
        if not os.path.exists(d + '/ok'):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/b'); os.makedirs(d + '/f')
            cmd = ['cmake', '-S', src + '/src', '-B', d + '/b', '-G', 'Unix Makefiles', '-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_C_COMPILER=gcc',
                   '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_Fortran_COMPILER=gfortran', '-DSIMINT_VECTOR=scalar', '-DSIMINT_MAXAM=%d' % v['l'], '-DSIMINT_MAXDER=%d' % der, '-DENABLE_FORTRAN=ON', '-DENABLE_TESTS=OFF']
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, CC='gcc', CXX='g++', FC='gfortran'))
            if r.returncode: raise build.BuildError('cmake: ' + r.stdout.decode(errors='replace')[-1500:])
            fl = open(d + '/b/simint/CMakeFiles/simint.dir/flags.make').read()
            flags = []
            for k in ('Fortran_DEFINES', 'Fortran_INCLUDES', 'Fortran_FLAGS'):
                m = re.search(r'^%s = (.*)$' % k, fl, re.M)
                if m: flags += m.group(1).split()
            flags = [x for x in flags if x not in ('-fopenmp',)]
            with open(d + '/flags', 'w') as f: f.write(' '.join(flags))
            r = subprocess.run(['gfortran'] + flags + ['-O2', '-g', '-gdwarf-4', '-fno-lto', '-fdump-tree-optimized-asmname', '-c', src + '/src/simint/simint.f90', '-o', 'simint.o'],
                               cwd=d + '/f', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise build.BuildError('gfortran: ' + r.stdout.decode(errors='replace')[-1500:])
            inc = [x for x in re.findall(r'-I(\S+)', re.search(r'^C_INCLUDES = (.*)$', fl, re.M).group(1))]
            with open(d + '/f/c.c', 'w') as f: f.write('#include "simint/simint.h"\nstruct simint_shell vt_a; struct simint_multi_shellpair vt_b;\n')
            r = subprocess.run(['gcc', '-std=gnu11', '-w', '-g', '-gdwarf-4'] + ['-I' + x for x in inc] + ['-c', 'c.c', '-o', 'c.o'], cwd=d + '/f', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise build.BuildError(r.stdout.decode(errors='replace')[-1500:])
            r = subprocess.run([build.CLANG, '-std=gnu11', '-w'] + ['-I' + x for x in inc] + ['-fsyntax-only', '-Xclang', '-ast-dump=json', 'c.c'], cwd=d + '/f', stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode: raise build.BuildError(r.stderr.decode(errors='replace')[-1500:])
            with open(d + '/f/c.json', 'wb') as f: f.write(r.stdout)
            with open(d + '/inc', 'w') as f: f.write('\n'.join(inc))
            open(d + '/ok', 'w').close()
    return d

# ---------------------------------------------------------------- C side
def cprotos(d):
    """name -> (return type, [(name, type)]) of the functions that the public headers declare; types: i32, i64, f64, void, p:<pointee>"""
    with open(d + '/f/c.json') as f: J = json.load(f)
    out = {}
    def ty(q):
        q = q.strip()
        q = re.sub(r'\b(const|restrict|volatile|__restrict)\b', '', q)
        q = re.sub(r'\s+', ' ', q).strip()
        if q.endswith('*'): return 'p:' + ty(q[:-1])
        return {'int': 'i32', 'size_t': 'i64', 'unsigned long': 'i64', 'long': 'i64', 'double': 'f64', 'void': 'void'}.get(q, q)
    for n in J['inner']:
        if n.get('kind') == 'FunctionDecl' and n['name'].startswith('simint_') and n.get('storageClass') != 'static':
            ps = [(p.get('name', ''), ty(p['type'].get('desugaredQualType', p['type']['qualType']) if False else p['type']['qualType'])) for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']
            out[n['name']] = (ty(n['type']['qualType'].split('(')[0]), ps)
    return out

def dwarf(obj):
    """structure name -> (size, [(member, offset, size, class)])"""
    t = subprocess.run(['readelf', '--debug-dump=info', '--wide', obj], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors='replace')
    die = {}; order = []; cur = None
    for l in t.splitlines():
        m = re.match(r'\s*<([0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: \d+(?: \((\w+)\))?', l)
        if m:
            cur = None
            if m.group(3): cur = dict(depth=int(m.group(1), 16), off=int(m.group(2), 16), tag=m.group(3)); die[cur['off']] = cur; order.append(cur)
            continue
        m = re.match(r'\s*<[0-9a-f]+>\s+(DW_AT_\w+)\s*:\s*(.*)$', l)
        if m and cur is not None:
            v = m.group(2).strip()
            v = re.sub(r'^\([a-z]\w*\)\s*', '', v); v = re.sub(r'^\((?:indirect string, )?offset: (?:0x)?[0-9a-f]+\): ', '', v)
            cur[m.group(1)] = v.strip()
    def num(s):
        s = s.split()[0]
        return int(s, 16) if s.startswith('0x') else int(s)
    def ref(v): return int(re.search(r'<(?:0x)?([0-9a-f]+)>', v).group(1), 16)
    def cls(o):
        e = die.get(o)
        if e is None: return ('void', 0)
        g = e['tag']
        if g in ('DW_TAG_pointer_type', 'DW_TAG_reference_type'): return ('pointer', num(e.get('DW_AT_byte_size', '8')))
        if g == 'DW_TAG_base_type':
            enc = num(e['DW_AT_encoding'])
            return ({5: 'integer', 7: 'integer', 4: 'real', 2: 'boolean'}.get(enc, 'encoding %d' % enc), num(e['DW_AT_byte_size']))
        if g in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_restrict_type', 'DW_TAG_volatile_type'):
            return cls(ref(e['DW_AT_type'])) if 'DW_AT_type' in e else ('void', 0)
        if g == 'DW_TAG_array_type': return ('array', 0)
        return (g[7:], num(e.get('DW_AT_byte_size', '0')))
    out = {}
    for i, e in enumerate(order):
        if e['tag'] == 'DW_TAG_structure_type' and 'DW_AT_name' in e and 'DW_AT_byte_size' in e:
            ms = []
            for c in order[i + 1:]:
                if c['depth'] <= e['depth']: break
                if c['tag'] == 'DW_TAG_member' and c['depth'] == e['depth'] + 1:
                    k, s = cls(ref(c['DW_AT_type']))
                    ms.append((c.get('DW_AT_name', '').lower(), num(c.get('DW_AT_data_member_location', '0')), s, k))
            out[e['DW_AT_name'].lower()] = (num(e['DW_AT_byte_size']), ms)
    return out

# ---------------------------------------------------------------- module file
def sexpr(t):
    tok = re.findall(r"'(?:[^']|'')*'|[()]|[^\s()']+", t)
    pos = 0
    def rd():
        nonlocal pos
        w = tok[pos]; pos += 1
        if w == '(':
            l = []
            while tok[pos] != ')': l.append(rd())
            pos += 1
            return l
        return w
    out = []
    while pos < len(tok): out.append(rd())
    return out

class Sym:
    def __init__(self, n, name, mod, label, ns, rest):
        self.n = n; self.name = name.lower(); self.mod = mod; self.label = label; self.ns = ns
        a = rest[0]; self.attr = a; self.flavor = a[0]; self.intent = a[1]; self.flags = set(x for x in a[2:] if isinstance(x, str))
        self.type = rest[2] if len(rest) > 2 else []
        self.rest = rest

def module(d):
    raw = gzip.open(d + '/f/simintfortran.mod').read().decode(errors='replace')
    body = raw.split('\n', 1)[1]
    top = sexpr(body)
    # the list of symbols is the longest one
    L = max((x for x in top if isinstance(x, list)), key=len)
    syms = {}
    q = lambda s: s[1:-1]
    i = 0
    while i + 5 < len(L) + 1 and i < len(L):
        n, name, mod, label, ns = L[i], L[i + 1], L[i + 2], L[i + 3], L[i + 4]
        if not (isinstance(n, str) and n.isdigit() and isinstance(name, str) and name.startswith("'")): raise build.BuildError('module file: unexpected form near %r' % (L[i:i + 3],))
        body = L[i + 5]
        syms[n] = Sym(n, q(name), q(mod), q(label), ns, body if isinstance(body, list) else [body])
        i += 6
    return syms

def fpoly(e, syms):
    """integer expression of the module file as {monomial of dummy names: coefficient}; None if not polynomial"""
    if not e: return None
    k = e[0]
    if k == 'CONSTANT': return {(): int(e[3].strip("'"))}
    if k == 'VARIABLE':
        s = syms.get(e[3])
        return {(s.name,): 1} if s else None
    if k == 'OP':
        op = e[3] if isinstance(e[3], str) else None
        xs = [fpoly(x, syms) for x in e[4:] if isinstance(x, list) and x]
        if any(x is None for x in xs): return None
        if op == 'TIMES' and len(xs) == 2:
            r = {}
            for a, c in xs[0].items():
                for b, f in xs[1].items():
                    m = tuple(sorted(a + b)); r[m] = r.get(m, 0) + c * f
            return r
        if op in ('PLUS', 'MINUS') and len(xs) == 2:
            r = dict(xs[0])
            for m, c in xs[1].items(): r[m] = r.get(m, 0) + (c if op == 'PLUS' else -c)
            return {m: c for m, c in r.items() if c}
        if op in ('PARENTHESES', 'UPLUS') and len(xs) == 1: return xs[0]
        if op == 'UMINUS' and len(xs) == 1: return {m: -c for m, c in xs[0].items()}
    return None

# ---------------------------------------------------------------- bodies
class Unread(Exception): pass
def bodies(d):
    f = [x for x in os.listdir(d + '/f') if x.endswith('.optimized')]
    t = open(d + '/f/' + f[0]).read(); out = {}
    for m in re.finditer(r'^;; Function (\S+) \((\S+?),[^\n]*\n(.*?)^\}', t, re.M | re.S):
        out[m.group(1)] = m.group(3)
    return out

def run_body(txt):
    """value-level meaning of a straight-line body: (calls [(name, args, result)], stores, returned value, parameters).
    Values: ('in', p) dummy as passed, ('deref', p), ('call', k), ('cast', type, v), ('const', s)"""
    m = re.search(r'\b(\w+) \((.*)\)\s*$', txt.split('\n{')[0].split('\n')[-1])
    if not m: raise Unread('no header')
    params = []
    if m.group(2).strip() not in ('', 'void'):
        depth = 0; cur = ''
        for ch in m.group(2):
            if ch in '([': depth += 1
            if ch in ')]': depth -= 1
            if ch == ',' and not depth: params.append(cur); cur = ''
            else: cur += ch
        params.append(cur)
    params = [p.split()[-1].lstrip('&*') for p in params]
    body = txt.split('\n{', 1)[1]
    types = dict((b, a.strip()) for a, b in re.findall(r'^  (\S[^;=]*?) ([\w.]+);$', body, re.M))
    if len(re.findall(r'<bb \d+>', body)) > 1: raise Unread('branches')
    body = body[body.index('<bb'):].split('\n', 1)[1]
    val = {}; calls = []; stores = []; ret = None
    def g(s):
        s = s.strip()
        if s in val: return val[s]
        m = re.fullmatch(r'(\w+?)_\d+\(D\)', s)
        if m and m.group(1) in params: return ('in', m.group(1))
        if s in params: return ('in', s)
        if re.fullmatch(r'-?\d+|-?[\d.]+e[+-]?\d+', s): return ('const', s)
        m = re.fullmatch(r'&\(?\*(\w+)_\d+\(D\)\)?\[0\]', s)   # address of the first element
        if m and m.group(1) in params: return ('in', m.group(1))
        raise Unread('operand ' + s)
    for l in body.split('\n'):
        l = re.sub(r'; *(\[[^\]]*\])?$', '', l.strip())
        if not l or l.startswith('#') or re.fullmatch(r'<\w+>:?', l) or 'CLOBBER' in l: continue
        if l in ('return', '}'): continue
        m = re.fullmatch(r'return (.*)', l)
        if m: ret = g(m.group(1)); continue
        m = re.fullmatch(r'([\w.]+) = \*(\w+?)_\d+\(D\)', l)
        if m and m.group(2) in params: val[m.group(1)] = ('deref', m.group(2)); continue
        m = re.fullmatch(r'(?:([\w.]+) = )?([A-Za-z_]\w*) \((.*)\)(?: \[[^\]]*\])*', l, re.S)
        if m and m.group(2) not in ('if', 'goto'):
            a = [g(x) for x in m.group(3).split(',')] if m.group(3).strip() else []
            calls.append((m.group(2), a, types.get(m.group(1)) if m.group(1) else None))
            if m.group(1): val[m.group(1)] = ('call', len(calls) - 1)
            continue
        m = re.fullmatch(r'([\w.]+) = \(([^()]*(?:\([^()]*\))?[^()]*)\) (\S+)', l)
        if m:
            t, v = m.group(2), g(m.group(3)); val[m.group(1)] = ('cast', t, v); continue
        m = re.fullmatch(r'\*(\w+?)_\d+\(D\) = (.*)', l)
        if m: stores.append((m.group(1), m.group(2))); continue
        m = re.fullmatch(r'([\w.]+) = ([^ ]+)', l)
        if m: val[m.group(1)] = g(m.group(2)); continue
        raise Unread('statement ' + l[:80])
    return calls, stores, ret, params
