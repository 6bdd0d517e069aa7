"""Computations a validator may base its verdict on: small pieces of program text over values of the transaction.

Each piece reads n, a, l (integers of any sign), w (bytes), qs (non-empty list of integers), sg (non-empty list of bytes) and leaves an
integer in r@.  "@" is replaced by a suffix that keeps the names of several pieces apart.  Plain Python gives the meaning."""

import re

HELPERS = {
    'gcdx': ['def gcdx(x: int, y: int) -> int:', '    if y == 0:', '        return abs(x)', '    return gcdx(y, x % y)'],
    'fibx': ['def fibx(k: int) -> int:', '    if k < 2:', '        return k', '    else:', '        return fibx(k - 1) + fibx(k - 2)'],
    'evenx': ['def evenx(k: int) -> bool:', '    if k == 0:', '        return True', '    return oddx(k - 1)', '', 'def oddx(k: int) -> bool:', '    if k == 0:', '        return False', '    return evenx(k - 1)'],
    'outer': ['def outer(x: int, y: int) -> int:', '    z = x * 2', '    def inner(k: int) -> int:', '        if k <= 0:', '            return z + y', '        return inner(k - 1) + x', '    z = z + 1', '    return inner(3) - z'],
    'size': ['def size(x: Union[int, bytes]) -> int:', '    if isinstance(x, int):', '        return x + 1', '    return len(x)'],
    'shape': ['@dataclass()', 'class Dot(PlutusData):', '    CONSTR_ID = 3', '    x: int', '    name: bytes', '', '@dataclass()', 'class Box(PlutusData):', '    CONSTR_ID = 7', '    name: bytes', '    h: int', '    x: int', '', '@dataclass()', 'class Ring(PlutusData):', '    CONSTR_ID = 130', '    name: bytes', '    x: int', '', 'def area(s: Union[Dot, Box, Ring]) -> int:', '    if isinstance(s, Dot):', '        r = s.x', '    elif isinstance(s, Box):', '        r = s.x * s.h', '    else:', '        r = s.x * 3', '    return r + len(s.name) + s.x'],
    'vec': ['@dataclass()', 'class Vec(PlutusData):', '    CONSTR_ID = 2', '    x: int', '    y: int', '', '    def __add__(self, o: Self) -> Self:', '        return Vec(self.x + o.x, self.y - o.y)', '', '    def __lt__(self, o: Self) -> bool:', '        return self.x < o.x', '', '    def norm(self) -> int:', '        return self.x * self.x + self.y'],
    'count_from': ['def count_from(xs: List[int], lo: int) -> int:', '    c = 0', '    for x in xs:', '        if x >= lo:', '            c += 1', '        elif x < 0:', '            c -= 1', '    return c'],
    'clampx': ['def clampx(v: int, lo: int, hi: int) -> int:', '    if v < lo:', '        return lo', '    if v > hi:', '        return hi', '    return v'],
    'joinb': ['def joinb(xs: List[bytes], sep: bytes) -> bytes:', "    res = b''", '    for x in xs:', '        res = res + x[:3] + sep', '    return res'],
    'grow': ['KX = 10', '', 'def grow(k: int) -> int:', '    s = 0', '    while k > 0:', '        s += k * KX', '        k = k // 2 - 1', '    return s'],
    'vec2': ['@dataclass()', 'class V2(PlutusData):', '    CONSTR_ID = 2', '    x: int', '    y: int', '', '    def __add__(self, o: Self) -> Self:', '        return V2(self.x + o.x, self.y + o.y)', '', '    def __sub__(self, o: Self) -> Self:', '        return V2(self.x - o.x, self.y - o.y)', '', '    def __mul__(self, k: int) -> Self:', '        return V2(self.x * k, self.y * k)', '', '    def __floordiv__(self, k: int) -> int:', '        return self.x // k', '', '    def __mod__(self, k: int) -> int:', '        return self.y % k', '', '    def __neg__(self) -> Self:', '        return V2(-self.x, -self.y)', '', '    def __eq__(self, o: Self) -> bool:', '        return self.x % 5 == o.x % 5', '', '    def __lt__(self, o: Self) -> bool:', '        return self.y < o.y', '', '    def __ge__(self, o: Self) -> bool:', '        return self.x >= o.x', '', '    def __contains__(self, k: int) -> bool:', '        return self.x <= k and k <= self.y', '', '    def scale(self, k: int, j: int) -> Self:', '        return V2(self.x * k, self.y * j)', '', '    def total(self) -> int:', '        return self.scale(2, 3).x + self.y'],
    'tree': ['@dataclass()', 'class Leaf(PlutusData):', '    CONSTR_ID = 0', '    v: int', '', '@dataclass()', 'class Pair(PlutusData):', '    CONSTR_ID = 1', '    l: Leaf', '    r: Leaf', '', '@dataclass()', 'class Many(PlutusData):', '    CONSTR_ID = 5', '    xs: List[Leaf]', '    d: Dict[bytes, int]', '', 'Tree = Union[Leaf, Pair, Many]', '', 'def depth(t: Tree) -> int:', '    if isinstance(t, Leaf):', '        return t.v', '    elif isinstance(t, Pair):', '        return t.l.v - t.r.v', '    return sum([q.v for q in t.xs]) + len(t.d)', '', 'def both(t: Tree) -> int:', '    if isinstance(t, Leaf) or isinstance(t, Pair):', '        r = 1 if isinstance(t, Leaf) else 2', '    else:', '        r = 3', '    if not isinstance(t, Many):', '        r += 10', '    return r', '', 'def asserted(t: Tree) -> int:', '    assert isinstance(t, Pair), "no pair"', '    return t.l.v * t.r.v'],
    'search': ['def search(xs: List[int], want: int) -> int:', '    i = 0', '    for x in xs:', '        if x == want:', '            return i', '        i += 1', '    return 0 - 1'],
    'digits': ['def digits(k: int) -> int:', '    s = 0', '    while k > 0:', '        s += k % 10', '        k //= 10', '    else:', '        s += 100', '    return s'],
    'forelse': ['def forelse(xs: List[int], k: int) -> int:', '    s = 0', '    for x in xs:', '        s += x % k', '    else:', '        s += 7', '    return s'],
    'void': ['def checkpos(k: int) -> None:', '    assert k > 0 - 100, "too small"', '', 'def twice(k: int) -> int:', '    checkpos(k)', '    return k + k'],
    'higher': ['def addk(k: int, xs: List[int]) -> List[int]:', '    def one(x: int) -> int:', '        return x + k', '    return [one(x) for x in xs]'],
    'mutual': ['def ping(k: int, s: int) -> int:', '    if k <= 0:', '        return s', '    return pong(k - 2, s + 3)', '', 'def pong(k: int, s: int) -> int:', '    if k <= 0:', '        return s * 2', '    return ping(k + 1, s - 1)'],
    'early': ['def early(x: int, y: int) -> int:', '    if x > y:', '        if x % 2 == 0:', '            return x', '        x = x - 1', '    else:', '        y = y + 1', '        if y % 3 == 0:', '            return y', '    z = x * y', '    return z - 1'],
    'opt': ['@dataclass()', 'class Just(PlutusData):', '    CONSTR_ID = 0', '    v: int', '', 'def lookup(d: Dict[bytes, int], k: bytes) -> Union[Just, Nothing]:', '    res: Union[Just, Nothing] = Nothing()', '    for kk, v in d.items():', '        if kk == k:', '            res = Just(v)', '    return res', '', 'def orzero(o: Union[Just, Nothing]) -> int:', '    if isinstance(o, Nothing):', '        return 0', '    return o.v'],
    'ub': ['def kind(x: Union[int, bytes, List[Anything], Dict[Anything, Anything]]) -> int:', '    if isinstance(x, int):', '        r = 1 + x', '    elif isinstance(x, bytes):', '        r = 2 + len(x)', '    elif isinstance(x, List):', '        r = 300 + len(x)', '    else:', '        r = 4000 + len(x)', '    return r'],
    'cap': ['def mk(k: int) -> int:', '    total = k', '    def addt(j: int) -> int:', '        return j + total', '    first = addt(1)', '    total = total * 2', '    return first * 100 + addt(1)'],
    'shadow': ['zz = 4', '', 'def useglobal(k: int) -> int:', '    return zz + k', '', 'def shadow(k: int) -> int:', '    zz = k * 2', '    return zz + useglobal(1)'],
}

SNIPPETS = [
    ([], ['r@ = (a - l) // 7 + (a - l) % 7']),
    ([], ['r@ = (l - a) // (0 - 7) * 10 + (l - a) % (0 - 7)']),
    ([], ['m@ = 0 - n - 5', 'r@ = m@ // 3 * 100 + m@ % 3']),
    ([], ['r@ = (0 - n - 2) ** 3 + (n + 1) ** 2']),
    ([], ['r@ = abs(a - l) + abs(l - a) - abs(n)']),
    ([], ['r@ = max([n, a, 5, l]) - min([n, a, 5, l])']),
    ([], ['r@ = max(qs) - min(qs) + sum(qs)']),
    ([], ['r@ = w[0] + w[-1] + w[len(w) - 3]']),
    ([], ['r@ = w[n % 10] * 3 - w[-(n % 5) - 1]']),
    ([], ['r@ = len(w[5:]) + len(w[:n % 30]) * 3 + len(w[-4:]) * 5 + len(w[3:-2]) * 7 + len(w[9:4])']),
    ([], ['s@ = w[n % 7:n % 7 + 5]', 'r@ = s@[0] + s@[4] + len(s@)']),
    ([], ['s@ = w[-9:-3]', 'r@ = s@[0] * 2 + s@[-1] + len(s@)']),
    ([], ['xs@ = [3, n, a, l]', 'r@ = xs@[-1] + xs@[n % 4] * 2 + xs@[len(xs@) - 2]']),
    ([], ['xs@ = [3, n, a, l, 8]', 'ys@ = xs@[1:3]', 'zs@ = xs@[n % 5:]', 'r@ = sum(ys@) * 2 + len(zs@) + sum(xs@[:-2])']),
    ([], ['xs@ = [3, n, a] + [l, 8]', 'r@ = xs@.index(8) * 5 + xs@.index(3) + len(xs@)']),
    ([], ['r@ = sum([x * x for x in [n, a % 7, 3] if x > 2]) + len([q for q in qs if q % 2 == 0])']),
    ([], ['r@ = sum([sum([x + y for y in [10, n]]) for x in [1, 2, a % 5]])']),
    ([], ["d@ = {1: b'a', n + 2: b'bcd', n + 9: b'xy'} if n > 0 else {1: b'z', 2: b'', 9: b'pq'}", "r@ = len(d@.get(n + 2, b'')) * 5 + len(d@.get(77777, b'1234567')) + len(d@[1]) + len(d@)"]),
    ([], ["d@ = {k: len(s) for k, s in {b'a': w, b'b': w[:4], b'c': b''}.items()}", "r@ = sum(d@.values()) + d@[b'b'] * 3 + len([k for k in d@.keys() if k > b'a'])"]),
    ([], ['d@ = {x: x * n for x in [1, 4, 6]}', 't@ = 0', 'for k@, v@ in d@.items():', '    t@ += k@ * v@ + 1', 'r@ = t@']),
    ([], ['k@ = abs(n) % 1000 + 20', 'c@ = 0', 'while k@ > 1:', '    k@ = k@ // 2 if k@ % 2 == 0 else k@ * 3 + 1', '    c@ += 1', 'r@ = c@']),
    ([], ['t@ = 0', 'for k@ in range(n % 5 + 3):', '    if k@ % 2 == 0:', '        t@ += k@', '    else:', '        t@ -= 1', 'r@ = t@ * 10 + k@']),
    ([], ['t@ = 0', 'for i@ in [1, 2, 3]:', '    for j@ in qs:', '        if j@ % (i@ + 1) == 0:', '            t@ += i@', 'r@ = t@ * 2 + 1']),
    ([], ["s@ = (str(n - a) + ',' + str(l)).encode()", 'r@ = len(s@) * 3 + s@[-1] + s@[0]']),
    ([], ["s@ = f'{n}-{a}:{w[:2].hex()}'.encode()", 'r@ = len(s@) + s@[0] + s@[-2]']),
    ([], ["r@ = int(str(a - n)) + int('-12') + int(str(abs(l)) + '0')"]),
    ([], ['s@ = hex(abs(a) + 16).encode() + oct(abs(l)).encode()', 'r@ = len(s@) + s@[2] + s@[-1] * 3']),
    ([], ['b@ = bytes([n % 256, a % 256, 3])', 'r@ = b@[0] + b@[1] * 2 + len(b@ + w)']),
    ([], ["r@ = 1 if w < sg[0] + b'x' else 2", "r@ = r@ + (10 if w <= w else 20) + (100 if w > b'' else 200)"]),
    ([], ['b@ = w[:3] * 2', 'r@ = len(b@) + b@[4]']),
    ([], ['h@ = sha256(w + str(n).encode()).digest()', 'r@ = h@[0] + h@[31] * 3 + len(h@)']),
    ([], ["h@ = sha256(w[:n % 9]).digest() + sha256(b'').digest()", 'r@ = h@[5] + h@[0] * 3 + h@[-1] + len(h@)']),
    ([], ['r@ = (1 if all([q > 1000 for q in qs]) else 0) + (2 if any([q % 2 == 1 for q in qs]) else 0) + (4 if all([x > 0 for x in [n, a]]) else 0)']),
    ([], ['r@ = 1 if 0 < n < 5 else 2 if a >= l and not n == 3 else 3 if n < 0 or a == 3 else 4']),
    ([], ['x@, y@ = n, a', 'y@, x@ = x@ + 1, y@ + 2', 'r@ = x@ * 10 - y@']),
    ([], ['f@ = n > 2 and a > 2', 'g@ = n > 2 or a > 2', 'r@ = (1 if f@ else 0) + (2 if g@ else 0) + (4 if f@ == g@ else 0) + (8 if not f@ else 0)']),
    ([], ['r@ = int(n > 3) + 2 * int(bool(a)) + 4 * int(bool(w)) + 8 * int(bool([n][1:]))']),
    ([], ["r@ = (5 if w in sg else 6) + (10 if n in [1, 2, 3] else 20) + (100 if b'q' not in sg else 200)"]),
    ([], ['xs@ = [x for x in reversed([n, a, l])]', 'r@ = xs@[0] * 2 - xs@[2]']),
    ([], ['e@: List[int] = []', 'for q@ in qs:', '    e@ = e@ + [q@ % 10]', 'r@ = len(e@) * 100 + sum(e@)']),
    ([], ['e@: Dict[int, bytes] = {}', 'r@ = len(e@) + len(e@.get(4, w))']),
    ([], ['e@ = [[n, 1], [a], [l, 2, 3]]', 'r@ = sum([len(x) for x in e@]) + e@[2][1] * 5 + e@[0][0]']),
    ([], ['b@ = w.hex()', 'r@ = len(b@.encode()) + b@.encode()[1]']),
    ([], ["b@ = w[:4].ljust(n % 9, b'.') + b'z'.rjust(3, b'-')", 'r@ = len(b@) + b@[-1] + b@[-2]']),
    ([], ["r@ = len((b'abc'.decode() + 'xyz').encode()) + (1 if 'abc' == b'abc'.decode() else 2)"]),
    ([], ['t@ = 3', 'if n > 4:', '    t@ = t@ * 2', '    if a > 1:', '        t@ += 7', '    else:', '        t@ -= 7', 'elif n == 0:', '    t@ = 11', 'r@ = t@']),
    ([], ['r@ = n * 4 - (-a) + (+l) - (a - -n)']),
    ([], ['u@ = n', 'u@ += a', 'u@ *= 2', 'u@ -= l', 'u@ //= 3', 'u@ %= 1000', 'r@ = u@']),
    ([], ['c@ = chr(97 + n % 20)', 'r@ = c@.encode()[0] + len((c@ + chr(300 + n % 9)).encode())']),
    ([], ['r@ = pow(n % 9 + 2, 5) + pow(3, a % 4)']),
    ([], ['s@ = (str(True) + str(n > 100) + str(None) + str(w[:2]) + str([n, a])).encode()', 'r@ = len(s@) + s@[5] + s@[-2]']),
    ([], ['r@ = sum([x for x in range(n % 7)])']),
    (['gcdx'], ['r@ = gcdx(a * 6, l) + gcdx(n, 4)']),
    (['fibx'], ['r@ = fibx(n % 8) + fibx(5)']),
    (['evenx'], ['r@ = 1 if evenx(abs(n) % 20) else 2 if oddx(a % 5) else 3']),
    (['outer'], ['r@ = outer(n, a) - outer(l, 1)']),
    (['size'], ["r@ = size(n) + size(w) * 2 + size(b'')"]),
    (['shape'], ['p@ = Dot(n, w[:2])', "q@ = Box(b'bx', 3, a)", 'o@ = Ring(w, n + 2)', 'r@ = area(p@) + area(q@) * 2 + area(o@) * 3']),
    (['shape'], ["v@: List[Union[Dot, Box, Ring]] = [Dot(n, b''), Box(b'q', a, 2), Ring(w, 1)]", 'r@ = sum([area(x) for x in v@]) + len([x for x in v@ if isinstance(x, Dot)]) + v@[n % 3].x']),
    (['shape'], ['r@ = (1 if Dot(n, w) == Dot(n, w) else 2) + (4 if Dot(n, w) == Dot(a, w) else 8) + len(Dot(n, w).to_cbor())']),
    (['vec'], ['z@ = Vec(n, a) + Vec(l, 3)', 'r@ = z@.norm() + z@.y + (1 if Vec(1, n) < Vec(a, 2) else 0)']),
    (['count_from'], ['r@ = count_from(qs, a) + count_from([n, -n, a, -a], 2) * 10']),
    (['clampx'], ['r@ = clampx(n, 1, 4) + clampx(a, 0 - 5, 1000) * 10 + clampx(l, 7, 7)']),
    (['joinb'], ["b@ = joinb(sg, b'-')", 'r@ = len(b@) + b@[0] + b@[3]']),
    (['grow'], ['r@ = grow(n) + grow(a % 50) * 3']),
    ([], ['def loc@(k: int) -> int:', '    return k * n + a', 'r@ = loc@(3) - loc@(l)']),
    ([], ['def lsum@(xs: List[int], k: int) -> int:', '    if k >= len(xs):', '        return 0', '    return xs[k] + lsum@(xs, k + 1)', 'r@ = lsum@([n, a, l], 0) + lsum@(qs, 0)']),
    ([], ['r@ = bytes_big_from_unsigned_int(abs(a) + 300)[-1] + unsigned_int_from_bytes_big(w[:5])']),
    ([], ['c@: int = ceil(a, 3)', 'f@: int = floor(0 - a, 3)', 'r@ = sign(n - 3) + gcd(a * 4, l) + c@ * 2 + f@ * 5']),
    ([], ['f@ = Fraction(n + 1, 3) + Fraction(a, 7)', 'r@ = floor_fraction(f@) + ceil_fraction(f@) * 10 + (100 if f@ > Fraction(1, 2) else 200)']),
    ([], ['f@ = norm_fraction(Fraction(n * 4, 0 - 6) * Fraction(l, 10))', 'r@ = f@.numerator * 3 + f@.denominator']),
    ([], ['m@ = set_bitmap(init_bitmap(24), [3, n % 24])', 'r@ = (1 if test_bitmap(m@, 3) else 0) + (2 if test_bitmap(m@, 17) else 0) + m@[0] + m@[2] * 3 + size_bitmap(m@) * 7']),
    ([], ['r@ = remainder_integer(0 - a, 7) + quotient_integer(0 - l, 6) * 2 + mod_integer(0 - a, 7) * 3 + divide_integer(0 - l, 6) * 5']),
    ([], ['b@ = cons_byte_string(n % 256, slice_byte_string(2, 5, w))', 'r@ = index_byte_string(b@, 0) + index_byte_string(b@, 3) * 2 + length_of_byte_string(b@) + (1 if less_than_byte_string(b@, w) else 0)']),
    ([], ['r@ = blake2b_256(w)[1] + sha2_256(w[2:])[2] * 2']),
    ([], ['r@ = byte_string_to_integer(True, integer_to_byte_string(True, 4, a % 70000)) + byte_string_to_integer(False, w[:3])']),
    ([], ["r@ = xor_byte_string(False, w[:4], w[4:8])[1] + and_byte_string(True, w[:2], b'zzz')[2] + count_set_bits(w) * 3 + shift_byte_string(w, n % 20 - 10)[3]"]),
    (['vec2'], ['p@ = V2(n, a) + V2(1, 2) * 3 - -V2(a, l)', 'r@ = p@.x * 3 + p@.y']),
    (['vec2'], ['p@ = V2(n, a)', 'r@ = (1 if p@ == V2(n + 5, 0) else 2) + (10 if p@ != V2(n + 5, 0) else 20) + (100 if V2(1, 2) == V2(6, a) else 200)']),
    (['vec2'], ['r@ = (1 if V2(n, a) < V2(1, 4) else 2) + (10 if V2(n, a) >= V2(3, 4) else 20) + (100 if 3 in V2(n, a) else 200) + (1000 if n not in V2(1, 4) else 2000)']),
    (['vec2'], ['p@ = V2(n, a)', 'p@ += V2(2, 2)', 'p@ *= 3', 'r@ = p@.x + p@.y * 5 + p@ // 4 + p@ % 7']),
    (['vec2'], ['r@ = V2(n, a).total() + V2(1, 2).scale(n, 2).total()']),
    (['vec2'], ['ps@ = [V2(n, 1), V2(a, 2), V2(3, l)]', 't@ = V2(0, 0)', 'for p@ in ps@:', '    t@ = t@ + p@', 'r@ = t@.x - t@.y']),
    (['vec2'], ['q@ = [V2(n, 2), V2(3, a)][n % 2].scale(2, 5)', 'r@ = q@.x + q@.y']),
    (['tree'], ["r@ = depth(Leaf(n)) + depth(Pair(Leaf(a), Leaf(l))) * 2 + depth(Many([Leaf(1), Leaf(n)], {b'a': 1, w: 2}))"]),
    (['tree'], ["t@: Tree = Pair(Leaf(a), Leaf(n)) if n % 2 == 0 else Many([Leaf(2)], {b'q': 1})", 'r@ = depth(t@) + both(t@) * 100']),
    (['tree'], ["ts@: List[Tree] = [Leaf(n), Pair(Leaf(1), Leaf(a)), Many([Leaf(7)], {b'': 4})]", 'r@ = sum([both(x) for x in ts@]) * 3 + sum([x.v for x in ts@ if isinstance(x, Leaf)])']),
    (['tree'], ['r@ = asserted(Pair(Leaf(n), Leaf(a))) + both(Leaf(1))']),
    (['tree'], ["m@ = Many([Leaf(n), Leaf(4)], {w: a, b'x': 2})", 'r@ = m@.xs[1].v + m@.d[w] * 3 + len(m@.to_cbor())']),
    (['tree'], ["m@ = Many([Leaf(n), Leaf(4)], {w: a, b'x': 2})", "r@ = (1 if m@ == Many([Leaf(n), Leaf(4)], {w: a, b'x': 2}) else 2) + (10 if m@.xs == [Leaf(n), Leaf(n + 4)] else 20) + (100 if Leaf(n) in m@.xs else 200)"]),
    (['tree'], ['t@: Tree = Leaf(n)', 'if isinstance(t@, Leaf) and t@.v > 2:', '    r@ = t@.v', 'elif isinstance(t@, Pair) or n > 1:', '    r@ = 5', 'else:', '    r@ = 6']),
    (['search'], ['r@ = search(qs, qs[-1]) + search([n, a, l], a) * 10']),
    (['digits'], ['r@ = digits(a) + digits(abs(l) * 7) + digits(-3)']),
    (['forelse'], ['r@ = forelse(qs, 7) + forelse([n, a], 3)']),
    (['void'], ['checkpos(a)', 'r@ = twice(n) + twice(a)']),
    (['higher'], ['r@ = sum(addk(n, qs)) % 1000 + addk(a, [1, 2])[1]']),
    (['mutual'], ['r@ = ping(n % 30, a) + pong(a % 20, 1)']),
    (['early'], ['r@ = early(n, a) + early(a, n) * 2 + early(l, 4)']),
    (['opt'], ["d@ = {b'a': n, w: a}", "r@ = orzero(lookup(d@, w)) * 3 + orzero(lookup(d@, b'a')) + orzero(lookup(d@, b'zz'))"]),
    (['opt'], ['o@ = lookup({w: n}, w)', 'r@ = o@.v if isinstance(o@, Just) else 0 - 1']),
    (['opt'], ['o@ = lookup({w: n}, w[:a % 40])', 'r@ = (1 if isinstance(o@, Nothing) or o@.v > 3 else 2) + (10 if isinstance(o@, Just) and o@.v % 2 == 0 else 20)']),
    (['opt'], ["os@ = [lookup({w: n}, w), lookup({w: n}, b'')]", 'r@ = sum([o.v for o in os@ if isinstance(o, Just)]) + len([1 for o in os@ if isinstance(o, Nothing)]) * 10']),
    (['ub'], ['r@ = kind(n) + kind(w) * 2 + kind([n, w]) + kind({n: w})']),
    (['cap'], ['r@ = mk(n) + mk(3)']),
    (['shadow'], ['r@ = shadow(n) * 2 + useglobal(a)']),
    ([], ['t@ = (n, w, a)', 'x@, y@, z@ = t@', 'r@ = x@ + len(y@) + z@ * 2 + t@[2]']),
    ([], ["d@ = {b'a': {1: n}, b'b': {2: a, 3: l}}", "r@ = d@[b'b'][3] + d@.get(b'a', {0: 0}).get(1, 9) * 2 + sum([sum(x.values()) for x in d@.values()])"]),
    ([], ['xs@ = qs + [n] + qs[:1]', 'r@ = len(xs@) + xs@[0] % 10 + xs@[-1] % 7 + xs@[len(qs)]']),
    ([], ['r@ = (1 if [n, a] == [a, n] else 2) + (10 if qs == [n] else 20) + (100 if [w] != sg else 200)']),
    ([], ["s@ = 'ab' * (n % 4) + str(a)", "r@ = len(s@.encode()) + (1 if s@ == 'ab' + str(a) else 2)"]),
    ([], ["r@ = (1 if b'ab' < w else 2) + (4 if w >= b'\\x80' else 8) + (16 if w[:1] <= b'a' else 32) + (64 if b'' < w else 128)"]),
    ([], ['x@ = abs(n)', 'while x@ < 50:', '    x@ = x@ * 2 + 3', '    if x@ % 2 == 0:', '        x@ += 1', 'r@ = x@']),
    ([], ['x@ = 0', 'y@ = 0', 'for k@ in range(6):', '    for j@ in range(k@):', '        x@ += j@', '    y@ += x@', 'r@ = x@ * 100 + y@ + n']),
    ([], ['r@ = -7 // 2 + -7 % 3 * 10 + 7 // -2 * 100 + (-n) % 5 + n // -4']),
    ([], ['r@ = 2 ** (n % 10) + (-2) ** 3 + 0 ** 0 + n ** 2']),
    ([], ['x@ = True if n > 2 else False', 'y@ = not x@', 'r@ = (1 if x@ else 0) + (2 if y@ or x@ else 0) + (4 if x@ and not y@ else 0) + int(x@) * 8 + (16 if x@ != y@ else 0) + (32 if True == x@ else 0)']),
    ([], ['r@ = abs(-n) + abs(a - 5)']),
    ([], ['r@ = len([x for x in qs if x > 3 and x % 2 == 0 or x == a]) + len([x for x in [[n], [a, l]] if x])']),
    ([], ['d@ = {n: 1, n + 1: 2, n + 2: 3}', 'r@ = sum([k for k in d@.keys()]) * 2 + d@[n + 1] + (7 if n in d@.keys() else 9)']),
    ([], ['def g@(k: int) -> int:', '    if k > 3:', '        return g@(k - 1) + n', '    return k * a', 'r@ = g@(6) + g@(1)']),
    ([], ['ks@ = [x * n for x in range(4)]', 'r@ = sum(ks@) + ks@[3]']),
    ([], ['r@ = len(bytes([1, 2, n % 256])) + bytes([a % 256])[0]']),
    ([], ['x@: Dict[int, List[int]] = {1: [n, a], 2: []}', 'r@ = len(x@[1]) + len(x@[2]) * 10 + x@[1][1]']),
    ([], ['b@ = w', 'for k@ in [1, 2, 3]:', '    b@ = b@[k@:] + b@[:k@]', 'r@ = b@[0] + b@[9] * 2 + len(b@)']),
    ([], ['k@ = 5', "assert k@ + abs(n) > 0, 'never'", 'pass', 'r@ = k@ if n != 0 else k@ + 1']),
    ([], ["print(f'n is {n} and {a}')", 'r@ = n + 1']),
    ([], ["r@ = int('0012') + int('+7') + int('-0') + int('1_000')"]),
    ([], ["r@ = int(' 42 ') + n"]),
    ([], ['s@ = str(w[:1].hex()) + str(b"its") + str([b\'a\', b\'\\n\']) + str({n: b\'x\'})', 'r@ = len(s@.encode()) + s@.encode()[3]']),
    ([], ["r@ = len(f'{a}{n > 2}{w[:3]}{[n, l]}'.encode())"]),
    ([], ["r@ = 'a\\u00e9'.encode()[1] + len('\\U0001f600'.encode()) + (1 if b'\\xc3\\xa9'.decode() == '\\u00e9' else 2)"]),
    ([], ['r@ = sum([1 if s[0] > 100 else 2 for s in sg]) + len(sg[0]) + (1 if sg[0] == sg[-1] else 2)']),
    # pieces that raise for some values: every form has to refuse exactly those
    ([], ['r@ = [7, n, a][abs(n) % 4] + 1']),
    ([], ['d@ = {1: a, 3: l}', 'r@ = d@[abs(n) % 4]']),
    ([], ['r@ = l // (n % 3) + l % (n % 3)']),
    ([], ["r@ = int('12' if n % 2 == 0 else '1x') + 1"]),
    ([], ["r@ = int(['5', '-', '', '+3', ' 7', '--2', '08'][abs(n) % 7])"]),
    ([], ['r@ = len(bytes([n % 4 + 253, 1]))']),
    ([], ['r@ = w[26 + n % 4]']),
    ([], ['r@ = w[-(26 + n % 4)] + w[0]']),
    ([], ['r@ = [5, 6, a].index(n % 8) + 1']),
    ([], ["b@ = [b'abc', b'\\xff', b'\\xc3\\xa4', b'\\xc3'][abs(n) % 4].decode()", 'r@ = len(b@.encode())']),
    ([], ['x@ = n % 5', "assert x@ != 3, f'{x@} is three'", 'r@ = x@']),
    ([], ['f@ = n % 2 == 0 and 10 // (n % 4) > 1', 'g@ = n % 2 == 1 or 10 // (n % 4) > 1', 'r@ = (1 if f@ else 2) + (4 if g@ else 8)']),
    ([], ['xs@ = [x for x in [n % 3, n % 4] if 6 // x > 0]', 'r@ = len(xs@)']),
    ([], ['xs@: List[int] = [x for x in qs if x < n]', 'r@ = max(xs@) if n > 4 else 2']),
    (['tree'], ['t@: Tree = Pair(Leaf(a), Leaf(n)) if n % 2 == 0 else Leaf(3)', 'assert isinstance(t@, Pair)', 'r@ = t@.l.v - t@.r.v']),
    ([], ["b@ = b''.fromhex('00ff' + w[:2].hex())", 'r@ = b@[1] + b@[2] + len(b@)']),
    ([], ["r@ = len(b''.fromhex(['0a', 'zz', '0A0b', 'abc', ''][abs(n) % 5]))"]),
    ([], ["print(n, w, 'x')", 'b@ = bytes(n % 6)', 'r@ = len(b@) + len(str(n).encode())']),
    (['shape'], ["s@ = str(Dot(n, w[:2])) + f'{Box(b\'q\', a, 2)}'", 'r@ = len(s@.encode()) + s@.encode()[-3]']),
    (['shape'], ["o@: Union[Dot, Box, Ring] = Dot(n, b'') if n % 2 == 0 else Ring(w, 1)", 'r@ = o@.CONSTR_ID * 3 + Box(b"", 1, 2).CONSTR_ID + o@.x']),
    ([], ["d@ = {b'x': n, b'y': a}", "r@ = sum([v * 2 if k == b'x' else v for k, v in d@.items()]) + len([k for k, v in d@.items() if v > 2])"]),
    ([], ['del_@ = n', 'if True:', '    q@ = del_@ * 2', 'else:', '    q@ = 1', 'r@ = q@']),
    ([], ['x@: Union[int, bytes] = n if n % 2 == 0 else w', 'r@ = x@ + 1 if isinstance(x@, int) else len(x@)']),
    ([], ['n1@ = n', 'if n > 3:', "    return_@ = 'big'", 'else:', "    return_@ = 'small'", "r@ = len(return_@.encode()) + (1 if return_@ == 'big' else 2) + n1@"]),
]

IMPORTS = [
    ("from hashlib import sha256", r"\bsha256\("),
    ("from typing import Self", r"\bSelf\b"),
    ("from opshin.std.builtins import *", r"(remainder|quotient|mod|divide)_integer\(|byte_string|\bblake2b_256\(|\bsha2_256\(|\bcount_set_bits\("),
    ("from opshin.std.math import *", r"\bbytes_big_from|\bunsigned_int_from|\bsign\(|\bgcd\(|\bceil\(|\bfloor\("),
    ("from opshin.std.fractions import *", r"\bFraction\("),
    ("from opshin.std.bitmap import *", r"_bitmap\("),
]


def imports(text):
    """Import lines that the text needs."""
    return [line for line, pattern in IMPORTS if re.search(pattern, text)]
