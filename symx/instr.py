"""Build the code under test twice from /repo's current sources:
  * instrumented: clang -> LLVM IR -> every floating-point operation becomes a call
    of the symbolic runtime (rt.cpp) -> shared object;
  * plain: the same sources and flags, uninstrumented, used for replay."""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SYMX_REPO', '/repo')
CACHE = os.environ.get('SYMX_CACHE', os.path.join(VERIF, '.cache'))
CXX = 'clang++'
INC = ['src/common', 'src/geometry', 'src/FGraph', 'src/PCRegistration']
BASE = ['-std=c++14', '-fPIC', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-w',
        '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-DNDEBUG']
HINC = os.path.join(HERE, 'inc')
PRED = dict(false=0, oeq=1, ogt=2, oge=3, olt=4, ole=5, one=6, ord=7, uno=8, ueq=9, ugt=10, uge=11, ult=12, ule=13, une=14, true=15)
UN1 = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'trunc', 'rint', 'round',
       'fabs', 'sinh', 'cosh', 'tanh', 'cbrt'}
BI2 = {'atan2', 'pow', 'fmod', 'hypot', 'fmin', 'fmax', 'copysign'}
LL1 = {'sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'trunc', 'rint', 'round', 'fabs'}
LLMAP = {f'llvm.{n}.f64': n for n in LL1}
LLMAP.update({'llvm.nearbyint.f64': 'rint', 'llvm.roundeven.f64': 'rint', 'llvm.pow.f64': 'pow', 'llvm.minnum.f64': 'fmin', 'llvm.maxnum.f64': 'fmax',
              'llvm.copysign.f64': 'copysign', 'llvm.fma.f64': 'fma', 'llvm.fmuladd.f64': 'fma', 'nearbyint': 'rint', 'fma': 'fma'})
FLAGS = r'(?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*'
R_BIN = re.compile(r'^(\s*%[\w.$-]+|\s*%"[^"]+") = (fadd|fsub|fmul|fdiv|frem) ' + FLAGS + r'double ([^,]+), ([^,!]+?)(, !.*)?$')
R_NEG = re.compile(r'^(\s*%[\w.$-]+) = fneg ' + FLAGS + r'double ([^,!]+?)(, !.*)?$')
R_CMP = re.compile(r'^(\s*%[\w.$-]+) = fcmp ' + FLAGS + r'(\w+) double ([^,]+), ([^,!]+?)(, !.*)?$')
R_TR = re.compile(r'^(\s*%[\w.$-]+) = fptrunc ' + FLAGS + r'double (\S+) to float(, !.*)?$')
R_TOI = re.compile(r'^(\s*)(%[\w.$-]+) = (fptosi|fptoui) double (\S+) to (i\d+)(, !.*)?$')
R_CALL = re.compile(r'^(\s*(?:%[\w.$-]+ = )?)((?:tail |musttail |notail )?call )(.*?)@("?[\w.$]+"?)\((.*)\)([^()]*)$')
R_ISC = re.compile(r'^(\s*%[\w.$-]+) = (?:tail )?call i1 @llvm\.is\.fpclass\.f64\(double (.*), i32 (\d+)\)')
R_POWI = re.compile(r'^(\s*%[\w.$-]+) = (?:tail )?call .*double @llvm\.powi\.f64\.i32\(double (.*), i32 (.*)\)')
R_VEC = re.compile(r'= (fadd|fsub|fmul|fdiv|fneg|fcmp|frem) .*<\d+ x double>')
DECL = []
for n in UN1: DECL.append(f'declare double @__sx_{n}(double)')
for n in BI2: DECL.append(f'declare double @__sx_{n}(double, double)')
for n in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): DECL.append(f'declare double @__sx_{n}(double, double)')
DECL += ['declare double @__sx_fneg(double)', 'declare zeroext i1 @__sx_fcmp(i32, double, double)', 'declare double @__sx_fma(double, double, double)',
         'declare float @__sx_fptrunc(double)', 'declare i64 @__sx_fptosi(double)', 'declare zeroext i1 @__sx_isfpclass(double, i32)',
         'declare double @__sx_powi(double, i32)']

def rewrite(text, name='?'):
    """Returns (new IR, counters)."""
    out = []; cnt = {}
    unk = set()
    for ln in text.split('\n'):
        if ' f' in ln or 'call' in ln or ln.startswith('declare'):
            m = R_BIN.match(ln)
            if m:
                out.append(f'{m[1]} = call double @__sx_{m[2]}(double {m[3]}, double {m[4]})'); cnt[m[2]] = cnt.get(m[2], 0)+1; continue
            m = R_NEG.match(ln)
            if m: out.append(f'{m[1]} = call double @__sx_fneg(double {m[2]})'); cnt['fneg'] = cnt.get('fneg', 0)+1; continue
            m = R_CMP.match(ln)
            if m: out.append(f'{m[1]} = call zeroext i1 @__sx_fcmp(i32 {PRED[m[2]]}, double {m[3]}, double {m[4]})'); cnt['fcmp'] = cnt.get('fcmp', 0)+1; continue
            m = R_TR.match(ln)
            if m: out.append(f'{m[1]} = call float @__sx_fptrunc(double {m[2]})'); continue
            m = R_TOI.match(ln)
            if m:
                t = m[5]
                if t == 'i64': out.append(f'{m[1]}{m[2]} = call i64 @__sx_fptosi(double {m[4]})')
                else:
                    v = f'%sxt{len(out)}'
                    out.append(f'{m[1]}{v} = call i64 @__sx_fptosi(double {m[4]})')
                    out.append(f'{m[1]}{m[2]} = trunc i64 {v} to {t}')
                continue
            m = R_ISC.match(ln)
            if m: out.append(f'{m[1]} = call zeroext i1 @__sx_isfpclass(double {m[2]}, i32 {m[3]})'); continue
            m = R_POWI.match(ln)
            if m: out.append(f'{m[1]} = call double @__sx_powi(double {m[2]}, i32 {m[3]})'); continue
            if R_VEC.search(ln): raise RuntimeError('vector floating point in ' + name + ': ' + ln)
            if 'call' in ln:
                m = R_CALL.match(ln)
                if m:
                    f = m[4].strip('"')
                    g = LLMAP.get(f) or (f if (f in UN1 or f in BI2) else None)
                    if g and 'double' in m[3]:
                        args = re.sub(r'\b(noundef|nofpclass\([^)]*\)) ', '', m[5])
                        out.append(f'{m[1]}call double @__sx_{g}({args})'); cnt[g] = cnt.get(g, 0)+1; continue
                    if f.startswith('llvm.') and '.f64' in f and g is None:
                        unk.add(f)
                elif '.f64(' in ln: unk.add(ln.strip())
            if ln.startswith('declare'):
                m = re.search(r'@([\w.]+)\(', ln)
                if m and (m[1] in LLMAP or m[1] in UN1 or m[1] in BI2): continue
        out.append(ln)
    if unk: raise RuntimeError(f'unsupported intrinsics in {name}: {unk}')
    out += DECL
    return '\n'.join(out), cnt

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode: raise RuntimeError('command failed: ' + ' '.join(cmd[:40]) + '\n' + r.stderr.decode()[-4000:])
    return r.stdout

def _h(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def flags(extra=()):
    return BASE + [f'-I{HINC}'] + [f'-I{REPO}/{i}' for i in INC] + ['-isystem', '/usr/include/eigen3'] + list(extra)

def compile_tu(src, mode, extra=(), opt='-O1'):
    """mode: 'sym' or 'plain'. Returns the object path (content-addressed cache)."""
    os.makedirs(CACHE, exist_ok=True)
    fl = flags(extra) + ['-include', os.path.join(HINC, 'symx_pre.h')] + (['-DSYMX_SYMBOLIC'] if mode == 'sym' else ['-DSYMX_PLAIN'])
    pre = _run([CXX, '-E', '-P'] + fl + [src])
    tool = open(__file__, 'rb').read() if mode == 'sym' else b''
    key = _h(mode, opt, ' '.join(f for f in fl if not f.startswith('-I')), pre, tool)
    obj = os.path.join(CACHE, key + '.o')
    if os.path.exists(obj): return obj
    tmp = obj + f'.{os.getpid()}.{abs(hash(src)) % 99999}'
    if mode == 'plain':
        _run([CXX, '-c', opt] + fl + [src, '-o', tmp])
    else:
        ll = _run([CXX, '-S', '-emit-llvm', opt] + fl + [src, '-o', '-']).decode()
        new, cnt = rewrite(ll, src)
        open(tmp + '.ll', 'w').write(new)
        _run([CXX, '-c', '-O0', '-fPIC', '-w', tmp + '.ll', '-o', tmp])
        os.unlink(tmp + '.ll')
    os.replace(tmp, obj)
    return obj

def build(srcs, mode, extra=(), libs=(), opt='-O1', per_src=None):
    """Compile and link sources into one shared object; returns its path."""
    per_src = per_src or {}
    os.makedirs(CACHE, exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get('SYMX_JOBS', '8'))) as ex:
        objs = list(ex.map(lambda s: compile_tu(s, mode, tuple(extra) + tuple(per_src.get(s, ())), opt), srcs))
    rt = os.path.join(HERE, 'rt.cpp')
    if mode == 'sym':
        key = _h(open(rt, 'rb').read(), 'rt2')
        ro = os.path.join(CACHE, key + '.rt.o')
        if not os.path.exists(ro):
            t = ro + str(os.getpid())
            _run([CXX, '-c', '-O2', '-std=c++17', '-fPIC', '-fno-builtin', '-w', rt, '-o', t]); os.replace(t, ro)
        objs = objs + [ro]
    key = _h(mode, *[os.path.basename(o) for o in objs], *libs)
    so = os.path.join(CACHE, key + '.so')
    if not os.path.exists(so):
        t = so + str(os.getpid())
        _run([CXX, '-shared', '-Wl,-Bsymbolic', '-o', t] + objs + list(libs)); os.replace(t, so)
    return so

def ensure_repo_srcs(rel): return [os.path.join(REPO, r) for r in rel]

def per_sources(d):
    """extra flags by source: names with a directory are files of the repository"""
    return {os.path.join(REPO, k) if '/' in k else os.path.join(VERIF, 'harness', k): v for k, v in d.items()}
