import glob, importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx import instr
for f in sorted(glob.glob(os.path.join(V, 'props', 'c*.py'))):
    m = importlib.import_module('props.' + os.path.basename(f)[:-3])
    srcs = instr.ensure_repo_srcs(m.REPO_SRCS) + [os.path.join(V, 'harness', x) for x in m.HARNESS_SRCS]
    per = instr.per_sources(getattr(m, 'PER_SRC', {}))
    for mode in ('sym', 'plain'):
        try: instr.build(srcs, mode, getattr(m, 'CXXFLAGS', ()), per_src=per)
        except Exception as x: print(f, mode, 'build failed:', str(x)[-500:])
