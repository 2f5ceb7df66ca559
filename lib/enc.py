"""Encode values for TLC: integers of TLC have 32 bits and its strings are
atoms, so numbers travel as base-10000 limbs and texts as code points (too)."""
import math
from decimal import Decimal


def limbs_int(digits):
    digits = digits.lstrip('0')
    if not digits:
        return []
    pad = (-len(digits)) % 4
    digits = '0' * pad + digits
    return [int(digits[i:i + 4]) for i in range(0, len(digits), 4)]


def limbs_frac(digits):
    digits = digits.rstrip('0')
    if not digits:
        return []
    digits += '0' * ((-len(digits)) % 4)
    return [int(digits[i:i + 4]) for i in range(0, len(digits), 4)]


def number(x):
    """Encode the int or float (by its shortest decimal notation)."""
    fl = isinstance(x, float)
    if fl and not math.isfinite(x):
        # too large, as far as anyone here is concerned
        return dict(number(-10 ** 400 if x < 0 else 10 ** 400), fl=True)
    dec = Decimal(repr(x)) if fl else Decimal(x)
    sign, digits, exp = dec.as_tuple()
    txt = ''.join(map(str, digits))
    if exp >= 0:
        ip, fp = txt + '0' * exp, ''
    else:
        if len(txt) <= -exp:
            txt = '0' * (-exp - len(txt) + 1) + txt
        ip, fp = txt[:exp], txt[exp:]
    i, f = limbs_int(ip), limbs_frac(fp)
    res = {'neg': bool(sign) and bool(i or f), 'i': i, 'f': f, 'fl': fl}
    if not fl and abs(x) > 2 ** 53:
        # how a float reads it
        try:
            res['d'] = number(float(x))
        except OverflowError:
            pass
    return res


def cps(text):
    return [ord(c) for c in text]


def token(x):
    """Encode a token of a date/time format."""
    if x.startswith('%') and len(x) == 2:
        return {'d': x[1], 'c': []}
    return {'d': '', 'c': cps(x)}


def value(v):
    """Encode a JSON value."""
    if v is None:
        return {'k': 'nul'}
    if isinstance(v, bool):
        return {'k': 'bool', 'b': v}
    if isinstance(v, (int, float)):
        return dict({'k': 'num'}, **number(v))
    if isinstance(v, str):
        return {'k': 'str', 's': v, 'c': cps(v)}
    if isinstance(v, list):
        return {'k': 'arr', 'e': [value(x) for x in v]}
    if isinstance(v, dict):
        return {'k': 'obj', 'm': [
            {'n': k, 'c': cps(k), 'r': repr(k), 'v': value(x)}
            for k, x in v.items()]}
    raise TypeError(type(v))
