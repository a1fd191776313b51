import argparse, sys
from . import runner
a = argparse.ArgumentParser()
a.add_argument('prop'); a.add_argument('--tier'); a.add_argument('--replay'); a.add_argument('--only')
x = a.parse_args()
if x.only:
    import importlib
    sys.path.insert(0, runner.VERIF)
    m = importlib.import_module('props.'+x.prop.lower())
    m.HARNESSES[:] = [h for h in m.HARNESSES if x.only in h.name]
sys.exit(runner.main(x.prop, x.tier, x.replay))
