"""Builds ASAPy covariance stores independently of the code under test."""
import warnings
import numpy as np
import pandas as pd

COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


def stddev_df(bounds, xs, sd, flip=False):
    """bounds: G+1 energies in eV from high to low"""
    G = len(xs)
    df = pd.DataFrame(index=pd.Index(range(1, G + 1), name='groups'), columns=COLS, dtype=float)
    hi, lo = list(bounds[:-1]), list(bounds[1:])
    if flip:
        hi, lo = lo, hi
    df['e high'], df['e low'] = hi, lo
    xs, sd = np.asarray(xs, float), np.asarray(sd, float)
    df['x-sec(1)'] = xs
    df['x-sec(2)'] = xs
    with np.errstate(all='ignore'):
        rel = np.where(xs == 0, 1e-7, sd / np.where(xs == 0, 1, xs))
    df['rel.s.d.(1)'] = rel
    df['rel.s.d(2)'] = rel
    df['s.d.(1)'] = sd
    df['s.d(2)'] = sd
    return df


def corr_df(corr):
    G = len(corr)
    return pd.DataFrame(np.array(corr, float), index=pd.Index(range(1, G + 1)), columns=list(range(1, G + 1)))


def put(h, zaid, mt, bounds, xs, sd, corr, flip=False, zaid2=None, mt2=None):
    zaid2 = zaid if zaid2 is None else zaid2
    mt2 = mt if mt2 is None else mt2
    key = '{0}/{1}/{2}/{3}/'.format(zaid, mt, zaid2, mt2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        h.put(key + 'std_dev', stddev_df(bounds, xs, sd, flip))
        h.put(key + 'corr', corr_df(corr))


def memory_store(name='mem'):
    """an HDF5 store that never touches the disk"""
    return pd.HDFStore(name + '.h5', mode='w', driver='H5FD_CORE', driver_core_backing_store=0)
