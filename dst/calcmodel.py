"""What the pieces of calc.py mean: plain Python over plain values, with the named library functions written down again from their documentation."""
import hashlib
import math
import sys
import types
from dataclasses import dataclass
from typing import Dict, List, Self, Union

from pycardano import Datum as Anything, PlutusData

from . import calc


@dataclass()
class Nothing(PlutusData):
    CONSTR_ID = 6


def sha256(b):
    return hashlib.sha256(b)


def sha2_256(b):
    return hashlib.sha256(b).digest()


def blake2b_256(b):
    return hashlib.blake2b(b, digest_size=32).digest()


def gcd(a, b):
    return math.gcd(a, b)


def sign(a):
    return -1 if a < 0 else 1


def floor(a, b):
    return a // b


def ceil(a, b):
    return -(-a // b)


def unsigned_int_from_bytes_big(b):
    return int.from_bytes(b, "big")


def bytes_big_from_unsigned_int(i):
    return i.to_bytes(max(1, (i.bit_length() + 7) // 8), "big")


class Fraction:
    def __init__(self, numerator, denominator):
        self.numerator, self.denominator = numerator, denominator

    def __add__(self, o):
        return Fraction(self.numerator * o.denominator + o.numerator * self.denominator, self.denominator * o.denominator)

    def __mul__(self, o):
        return Fraction(self.numerator * o.numerator, self.denominator * o.denominator)

    def __gt__(self, o):
        from fractions import Fraction as F
        return F(self.numerator, self.denominator) > F(o.numerator, o.denominator)


def floor_fraction(f):
    return f.numerator // f.denominator


def ceil_fraction(f):
    return -(-f.numerator // f.denominator)


def norm_fraction(f):
    from fractions import Fraction as F
    x = F(f.numerator, f.denominator)
    return Fraction(x.numerator, x.denominator)


def init_bitmap(size):
    return bytes((size + 7) // 8)


def set_bitmap(b, indices):
    x = int.from_bytes(b, "big")
    for i in indices:
        if not 0 <= i < 8 * len(b):
            raise IndexError
        x |= 1 << i
    return x.to_bytes(len(b), "big")


def test_bitmap(b, i):
    if not 0 <= i < 8 * len(b):
        raise IndexError
    return int.from_bytes(b, "big") >> i & 1 == 1


def size_bitmap(b):
    return len(b) * 8


def quotient_integer(x, y):
    return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)


def remainder_integer(x, y):
    return x - y * quotient_integer(x, y)


def divide_integer(x, y):
    return x // y


def mod_integer(x, y):
    return x % y


def cons_byte_string(i, b):
    return bytes([i]) + b


def slice_byte_string(start, count, b):
    return b[max(start, 0):max(start, 0) + max(count, 0)]


def index_byte_string(b, i):
    if not 0 <= i < len(b):
        raise IndexError
    return b[i]


def length_of_byte_string(b):
    return len(b)


def less_than_byte_string(x, y):
    return x < y


def byte_string_to_integer(big, b):
    return int.from_bytes(b, "big" if big else "little")


def integer_to_byte_string(big, width, i):
    return i.to_bytes(width, "big" if big else "little")


def _zip(pad, x, y, f, rest):
    n = min(len(x), len(y))
    tail = (x if len(x) > len(y) else y)[n:]
    head = bytes(f(p, q) for p, q in zip(x, y))
    return head + tail if pad else head


def xor_byte_string(pad, x, y):
    return _zip(pad, x, y, lambda p, q: p ^ q, 0)


def and_byte_string(pad, x, y):
    return _zip(pad, x, y, lambda p, q: p & q, 255)


def count_set_bits(b):
    return bin(int.from_bytes(b, "big")).count("1")


def shift_byte_string(b, k):
    x = int.from_bytes(b, "big")
    x = x << k if k >= 0 else x >> -k
    return (x & ((1 << 8 * len(b)) - 1)).to_bytes(len(b), "big")


_cache = {}


def value(helpers, lines, n, a, l, w, qs, sg):
    """The integer that the piece leaves in r@."""
    key = (tuple(helpers), tuple(lines))
    f = _cache.get(key)
    if f is None:
        text = "\n\n".join("\n".join(calc.HELPERS[h]) for h in helpers) + "\n\ndef piece(n, a, l, w, qs, sg):\n" + "".join("    " + x.replace("@", "_") + "\n" for x in lines) + "    return r_\n"
        mod = types.ModuleType("dst_calc_piece_%d" % len(_cache))
        sys.modules[mod.__name__] = mod
        mod.__dict__.update({k: v for k, v in globals().items() if not k.startswith("__")})
        exec(compile(text, "<piece>", "exec"), mod.__dict__)
        f = _cache[key] = mod.piece
    return f(n, a, l, w, qs, sg)
