"""Spoil everything a data object holds, in place: what else changes shares memory with it."""
import numpy as np


def spoil(obj):
    """change every number in every array and list reachable from obj; returns the number of arrays"""
    seen, todo, n = set(), [obj], 0
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (str, bytes, int, float, complex, type)):
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            if o.dtype.kind == 'O':
                todo += list(o.ravel())
            elif o.dtype.kind in 'fc' and o.flags.writeable:
                o *= -3.0
                o += 0.7
                n += 1
        elif isinstance(o, dict):
            todo += list(o.values())
        elif isinstance(o, (list, tuple, set)):
            todo += list(o)
            if isinstance(o, list):
                for i, v in enumerate(o):
                    if isinstance(v, float):
                        o[i] = -3.0 * v + 0.7
        elif type(o).__module__.startswith('ASAPy') and hasattr(o, '__dict__'):
            todo += list(vars(o).values())
        elif type(o).__module__.startswith('pandas'):
            for i, t in enumerate(getattr(o, 'dtypes', []) if hasattr(o, 'columns') else []):
                if t.kind == 'f':
                    o.iloc[:, i] = -1.0
    return n
