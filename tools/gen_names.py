"""One-off: public names of the third-party modules the repository uses (run with the repository's interpreter)."""
import importlib, json, warnings, sys
warnings.simplefilter('ignore')
mods = ['numpy', 'numpy.linalg', 'numpy.random', 'scipy', 'scipy.linalg', 'scipy.stats', 'scipy.spatial.distance',
        'sklearn.base', 'sklearn.exceptions', 'sklearn.utils', 'sklearn.utils.validation', 'sklearn.utils.multiclass',
        'sklearn.preprocessing', 'sklearn.metrics', 'sklearn.metrics.pairwise', 'sklearn.model_selection',
        'sklearn.multiclass', 'sklearn.neighbors', 'sklearn.linear_model', 'sklearn.utils.extmath', 'sklearn.ensemble',
        'cvxpy', 'quadprog', 'math', 'copy', 'joblib', 'numbers', 'warnings', 'six', 'abc', 'itertools', 'functools',
        'statsmodels.api', 'statsmodels.genmod.families', 'os', 'sys', 're', 'time', 'random', 'collections']
out = {}
for m in mods:
    try:
        out[m] = sorted(n for n in set(dir(importlib.import_module(m))) if not n.startswith('__'))
    except Exception as e:
        print(m, e, file=sys.stderr)
import numpy as np
out['#ndarray'] = sorted(n for n in dir(np.ndarray) )
out['#RandomState'] = sorted(n for n in dir(np.random.RandomState))
json.dump(out, open(sys.argv[1], 'w'), separators=(',', ':'))
