"""Writes sa/signatures.json: the names of the leading parameters of the
library functions and methods the models know (run with /opt/venv/bin/python)."""
import inspect
import json
import os
import re
import sys
import numpy as np
import pandas as pd
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = json.load(sys.stdin)


def params(o):
    try:
        s = inspect.signature(o)
        out = []
        for p in s.parameters.values():
            if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD, p.KEYWORD_ONLY):
                break
            out.append(p.name)
        return [x for x in out if x != 'self']
    except (TypeError, ValueError):
        m = re.match(r'\s*[\w.]+\(([^)]*)', o.__doc__ or '')
        if not m:
            return []
        out = []
        for x in m.group(1).replace('[', '').replace(']', '').split(','):
            x = x.split('=')[0].strip()
            if not re.fullmatch(r'\w+', x):
                break
            out.append(x)
        return out


OWN = {'FRM': pd.DataFrame, 'SER': pd.Series, 'IDX': pd.DatetimeIndex,
       'ARR': np.ndarray}
res = {}
for reg, l in names.items():
    for n in l:
        if reg == 'TM':
            o = {'pandas': pd, 'numpy': np, 'math': __import__('math')}.get(
                n.split('.')[0])
            for p in n.split('.')[1:]:
                o = getattr(o, p, None)
        elif reg == 'COMMON':
            o = getattr(pd.DataFrame, n, None) or getattr(pd.Series, n, None)
        else:
            o = getattr(OWN[reg], n, None)
        if callable(o):
            p = params(o)
            if p:
                res[reg + ':' + n] = p
json.dump(res, open(os.path.join(HERE, 'sa', 'signatures.json'), 'w'),
          indent=0, sort_keys=True)
print(len(res))
