"""Evaluates the terms that the specification leaves to IEEE 754 arithmetic and the C library's mathematics."""
import ctypes
import ctypes.util
import math
import struct

libm = ctypes.CDLL('libm.so.6')
libc = ctypes.CDLL('libc.so.6', use_errno=True)
UN = ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh')
for _n in UN + ('fabs',):
    getattr(libm, _n).restype = ctypes.c_double
    getattr(libm, _n).argtypes = [ctypes.c_double]
libm.pow.restype = ctypes.c_double
libm.pow.argtypes = [ctypes.c_double, ctypes.c_double]
libc.strtod.restype = ctypes.c_double
libc.strtod.argtypes = [ctypes.c_char_p, ctypes.c_void_p]

ANY = ('any',)


def strtod(text):
    """value and whether it is out of range"""
    ctypes.set_errno(0)
    v = libc.strtod(text.encode(), None)
    return v, ctypes.get_errno() == 34


CONST = {'pi': math.pi, 'eu': math.e, 'tau': 2 * math.pi}


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


BIN = {
    'add_f': lambda a, b: a + b, 'sub_f': lambda a, b: a - b, 'mul_f': lambda a, b: a * b, 'div_f': div, 'pow_f': lambda a, b: libm.pow(a, b),
    'eq_f': lambda a, b: a == b, 'ne_f': lambda a, b: a != b, 'ge_f': lambda a, b: a >= b, 'gt_f': lambda a, b: a > b, 'le_f': lambda a, b: a <= b, 'lt_f': lambda a, b: a < b,
    'eq_i': lambda a, b: a == b, 'ne_i': lambda a, b: a != b, 'ge_i': lambda a, b: a >= b, 'gt_i': lambda a, b: a > b, 'le_i': lambda a, b: a <= b, 'lt_i': lambda a, b: a < b,
    'eq_b': lambda a, b: a == b, 'ne_b': lambda a, b: a != b, 'ge_b': lambda a, b: a >= b, 'gt_b': lambda a, b: a > b, 'le_b': lambda a, b: a <= b, 'lt_b': lambda a, b: a < b,
    'and_b': lambda a, b: a and b, 'or_b': lambda a, b: a or b, 'xor_b': lambda a, b: a != b,
    'and_i': lambda a, b: a & b, 'or_i': lambda a, b: a | b, 'xor_i': lambda a, b: a ^ b,
}
INT = {'add_i': lambda a, b: a + b, 'sub_i': lambda a, b: a - b, 'mul_i': lambda a, b: a * b}


def in64(v):
    return v if -2 ** 63 <= v < 2 ** 63 else ANY


def ev(t):
    """bool, int, float or ANY (not specified)"""
    op = t['op']
    if op == 'any':
        return ANY
    if op == 'bool':
        return t['v']
    if op == 'int':
        return int(t['v'])
    if op == 'lit':
        return strtod(t['v'])[0]
    if op == 'const':
        return CONST[t['v']]
    a = [ev(x) for x in t['as']]
    if op == 'ite':
        return ANY if a[0] is ANY else a[1] if a[0] else a[2]
    if any(x is ANY for x in a):
        return ANY
    if op in UN:
        return getattr(libm, op)(a[0])
    if op == 'neg_f':
        return -a[0]
    if op == 'abs_f':
        return libm.fabs(a[0])
    if op == 'b2i':
        return int(a[0])
    if op in ('b2f', 'i2f'):
        return float(a[0])
    if op in BIN:
        return BIN[op](*a)
    if op in INT:
        return in64(INT[op](*a))
    if op == 'neg_i':
        return in64(-a[0])
    if op == 'abs_i':
        return in64(abs(a[0]))
    if op == 'not_i':
        return ~a[0]
    if op == 'not_b':
        return not a[0]
    if op in ('shl_i', 'shr_i'):
        if not 0 <= a[1] <= 63:
            return ANY
        if op == 'shr_i':
            return a[0] >> a[1]
        v = (a[0] << a[1]) & (2 ** 64 - 1)
        return v - 2 ** 64 if v >= 2 ** 63 else v
    if op in ('div_i', 'mod_i'):
        q = abs(a[0]) // abs(a[1])
        q = -q if (a[0] < 0) != (a[1] < 0) else q
        return in64(q) if op == 'div_i' else a[0] - q * a[1]
    raise ValueError(op)


def hexf(x):
    return struct.pack('>d', x).hex()


def nan_hex(h):
    return int(h, 16) & 0x7ff0000000000000 == 0x7ff0000000000000 and int(h, 16) & 0xfffffffffffff != 0


def ulps(h1, h2):
    """distance of two finite doubles, given in hexadecimal, in units in the last place"""
    def key(h):
        v = int(h, 16)
        return v if v < 2 ** 63 else 2 ** 63 - v
    return abs(key(h1) - key(h2))
