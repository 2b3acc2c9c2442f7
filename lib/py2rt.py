"""Classic (Python 2) division for translated modules. On the path as _py2rt."""
import numbers
import operator

import numpy as np


def _integral(x):
    if isinstance(x, (np.ndarray, np.generic)):
        return x.dtype.kind in 'biu'
    return isinstance(x, numbers.Integral)


def _listlike_integral(x):
    if isinstance(x, (list, tuple)):
        return np.asarray(x).dtype.kind in 'biu'
    return _integral(x)


def _integer_operands(a, b):
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        return _listlike_integral(a) and _listlike_integral(b)
    return _integral(a) and _integral(b)


def div(a, b):
    if _integer_operands(a, b):
        return a // b
    if hasattr(type(a), '__div__'):
        r = type(a).__div__(a, b)
        if r is not NotImplemented:
            return r
    if hasattr(type(b), '__rdiv__'):
        r = type(b).__rdiv__(b, a)
        if r is not NotImplemented:
            return r
    return a / b


def idiv(a, b):
    if _integer_operands(a, b):
        return operator.ifloordiv(a, b)
    if hasattr(type(a), '__idiv__'):
        r = type(a).__idiv__(a, b)
        if r is not NotImplemented:
            return r
    if hasattr(type(a), '__div__') or hasattr(type(b), '__rdiv__'):
        return div(a, b)
    return operator.itruediv(a, b)
