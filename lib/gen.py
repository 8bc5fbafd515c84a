"""Random scripts for the driver.  Nothing here knows what a call should do; the generators only keep
to the calls whose meaning the specification defines (registers distinct, keys short enough, divisors
not zero, floating point values that stay exact)."""

KEY_WIDTHS = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,
    31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58,
    59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 80, 96, 97, 99, 100, 101, 120, 126, 127, 128, 129, 130, 192, 200,
    250, 254, 255, 256, 257, 258, 300, 384, 500, 510, 511, 512, 513, 640, 768, 999, 1000, 1001, 1022, 1023, 1024,
    1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 10000, 16383, 16384, 32767, 32768,
    32769, 50000, 65535, 65536, 65537, 100000, 131071, 131072, 262143, 262144, 524287, 524288, 1000000, 1048575,
    1048576, 1048577, 2097151, 2097152, 4194303, 4194304, 8388608, 16777215, 16777216, 16777217, 33554432, 100000000,
    268435455, 536870912, 1073741823, 1073741824, 2000000000, 2147483647]
# letters beyond 2^31 cannot be written down in the specification
VERY_WIDE = [2147483648, 4000000000, 4294967295]
TOP_LETTER = 2 ** 31 - 1


def bits(n):
    return n.bit_length()


def depth(n):
    b = bits(n)
    s = (63 // b).bit_length() - 1
    return (64 - s) // b


def start(n, d):
    return sum(n ** k for k in range(d))


def tok(w):
    return ".".join(map(str, w)) if w else "."


def letter(rng, n):
    n = min(n, TOP_LETTER)
    c = rng.random()
    if c < 0.25:
        return n
    if c < 0.45:
        return 1
    if c < 0.6:
        return max(1, min(n, (1 << rng.randrange(bits(n))) + rng.choice([-1, 0, 1])))
    return rng.randint(1, n)


def word(rng, n, lo=0, hi=None):
    hi = depth(n) if hi is None else hi
    c = rng.random()
    if c < 0.25:
        k = hi
    elif c < 0.35:
        k = max(lo, hi - 1)
    elif c < 0.6:
        k = min(hi, rng.randint(lo, max(lo, min(hi, 4))))
    else:
        k = rng.randint(lo, hi)
    c = rng.random()
    if c < 0.15:
        return [min(n, TOP_LETTER)] * k
    if c < 0.25:
        return [1] * k
    return [letter(rng, n) for _ in range(k)]


def near(rng, n, w):
    """a word close to w"""
    w = list(w)
    c = rng.random()
    if c < 0.2:
        return w
    if c < 0.6 and w:
        i = rng.randrange(len(w))
        w[i] = max(1, min(n, TOP_LETTER, w[i] + rng.choice([-1, 1]))) if rng.random() < 0.5 else letter(rng, n)
        return w
    if c < 0.7 and w:
        return w[:-1]
    if c < 0.8 and w:
        return w[1:]
    if c < 0.9 and len(w) < depth(n):
        return w + [letter(rng, n)]
    if len(w) < depth(n):
        return [letter(rng, n)] + w
    return w


class Out(list):
    def __call__(self, *a):
        self.append(" ".join(map(str, a)))


# ------------------------------------------------------------------------------------------- keys

def keys_words(rng, n, steps, o):
    """C01: building and reading words"""
    o("begin keys", n, 4, 1)
    md = depth(n)
    have = {r: [] for r in range(1, 5)}
    o("maxd")
    for _ in range(steps):
        r = rng.randint(1, 4)
        c = rng.random()
        if c < 0.05:
            o("new", r); have[r] = []
        elif c < 0.15:
            l = letter(rng, n); o("letter", r, l); have[r] = [l]
        elif c < 0.45:
            w = word(rng, n) if rng.random() < 0.6 else near(rng, n, have[rng.randint(1, 4)])
            o("letters", r, tok(w)); have[r] = w
        elif c < 0.5:
            w = word(rng, n, md + 1, md + rng.choice([1, 1, 2, 5, 40]))
            o("letters", r, tok(w))
        elif c < 0.65:
            for _ in range(rng.randint(1, 3)):
                if len(have[r]) < md:
                    l = letter(rng, n); o("push", r, l); have[r] = [l] + have[r]
        elif c < 0.7:
            a = rng.randint(1, 4); o("copy", r, a); have[r] = have[a]
        elif c < 0.9:
            o("read", r)
        else:
            o("eq", r, rng.randint(1, 4))
        if rng.random() < 0.5:
            o("read", r)
            o("eq", r, rng.randint(1, 4))


def keys_cat(rng, n, steps, o):
    """C02"""
    o("begin keys", n, 6, 1)
    md = depth(n)
    for _ in range(steps):
        total = md if rng.random() < 0.3 else md + 1 if rng.random() < 0.2 else rng.randint(0, md + 3)
        total = min(total, 2 * md)
        k = rng.randint(max(0, total - md), min(md, total))
        u, v = word(rng, n, k, k), word(rng, n, total - k, total - k)
        o("letters", 1, tok(u))
        o("letters", 2, tok(v))
        o("cat", 3, 1, 2)
        o("cat", 4, 2, 1)
        o("new", 5)
        o("cat", 6, 5, 1)
        o("cat", 6, 1, 5)
        # associativity, through both bracketings
        cut = rng.randint(0, len(u))
        o("letters", 1, tok(u[:cut]))
        o("letters", 4, tok(u[cut:]))
        o("cat", 5, 1, 4)
        o("cat", 5, 5, 2)
        o("cat", 6, 4, 2)
        o("cat", 6, 1, 6)


def words_boundary(rng, n):
    md = depth(n)
    d = rng.choice([0, 1, 2, md, md - 1, rng.randint(0, md)])
    d = max(0, min(md, d))
    c = rng.random()
    return [1] * d if c < 0.2 else [n] * d if c < 0.4 else word(rng, n, d, d)


def keys_index(rng, n, steps, o):
    """C03"""
    o("begin keys", n, 2, 1)
    md = depth(n)
    top = min(start(n, md + 1), 2 ** 64)
    for _ in range(steps):
        if rng.random() < 0.5:
            o("letters", 1, tok(words_boundary(rng, n)))
            o("idx", 1)
        else:
            d = rng.randint(0, md)
            c = rng.random()
            i = start(n, d) + rng.choice([-1, 0, 1]) if c < 0.4 else rng.randrange(top) if c < 0.6 else \
                rng.randrange(min(top, 2 ** rng.randint(1, 64))) if c < 0.8 else rng.randrange(min(top, 200))
            i = max(0, min(top - 1, i))
            o("at", 2, i)
            o("idx", 2)


def keys_order(rng, n, steps, o):
    """C04"""
    o("begin keys", n, 3, 1)
    for _ in range(steps):
        u = word(rng, n)
        v = near(rng, n, u) if rng.random() < 0.6 else word(rng, n)
        x = near(rng, n, v) if rng.random() < 0.6 else [min(n, TOP_LETTER)] * rng.randint(0, depth(n))
        o("letters", 1, tok(u)); o("letters", 2, tok(v)); o("letters", 3, tok(x))
        for a, b in ((1, 2), (2, 1), (2, 3), (1, 3), (3, 1), (1, 1)):
            o("cmp", a, b)


def keys_iter(rng, n, steps, o):
    """C05"""
    md = depth(n)
    o("begin keys", n, 3, 2)
    if rng.random() < 0.5:
        o("iter", 1)
        for _ in range(rng.randint(1, 3 * steps)):
            o("next", 1, 1)
    for _ in range(max(1, steps // 12)):
        c = rng.random()
        if c < 0.3:
            w = [n] * rng.randint(0, md)
        elif c < 0.6:
            k = rng.randint(0, md)
            j = rng.randint(0, k)
            w = word(rng, n, k - j, k - j) + [n] * j
        elif c < 0.8:
            w = [n] * md
            if n > 1:
                w[-1] = rng.randint(max(1, n - 3), n)
        else:
            w = word(rng, n)
        o("letters", 2, tok(w))
        o("iterfrom", 2, 2)
        for _ in range(rng.randint(2, 12)):
            c = rng.random()
            if c < 0.15:
                o("nth", 2, rng.choice([0, 0, 1, 2, min(n, 20000) - 1, min(n, 20000), rng.randint(0, 300)]), 3)
            elif c < 0.25:
                o("hint", 2)
            else:
                o("next", 2, 3)
            if rng.random() < 0.1:
                o("next", 2, 2)


def keys_blocks(rng, n, steps, o):
    """C06"""
    md = depth(n)
    o("begin keys", n, 2, 1)
    o("maxd")
    for _ in range(steps):
        c = rng.random()
        d = rng.randint(0, md)
        if c < 0.25:
            o("start", rng.randint(0, md + 1))
        elif c < 0.55:
            i = start(n, d) + rng.choice([-1, 0, 1, n - 1, n, rng.randrange(n ** d)])
            i = max(0, min(min(start(n, md + 1), 2 ** 64) - 1, i))
            o("idxdeg", i)
            o("dimidx", i)
        else:
            o("letters", 1, tok(words_boundary(rng, n)))
            o("deg", 1)
            o("dimkey", 1)


def keys_fmt(rng, n, steps, o):
    o("begin keys", n, 1, 1)
    for _ in range(steps):
        o("letters", 1, tok(word(rng, n)))
        o("fmt", 1)


# ---------------------------------------------------------------------------------------- vectors

OUTS = ["neg", "add", "sub", "smr", "sml", "sdr", "sdl"]
INS = ["negi", "addi", "subi", "smli", "smri", "sdri", "sdli", "asrm", "aslm", "ssrm", "sslm", "asrd", "asld", "ssrd", "ssld"]
CONS = ["new", "fromkey", "fromks", "fromit", "fromdim", "fromvec"]
KEYOPS = ["kam", "ksm", "kad", "ksd"]
ACCESS = ["get", "getmut", "ins1", "ins", "erase", "clear", "swap", "getslice", "getidx", "getmutslice", "resize", "degree", "size"]
PRODS = ["mul", "comm", "muli", "addmul", "submul", "mslp", "msrp", "mrld", "mrrd", "maai", "mii"]


class Vec:
    """an episode of calls on vectors"""

    def __init__(self, rng, o, flavor, n, scalar, maxd=0, nr=4, nb=0, dmax=None, big=False, top=14, large=False):
        self.rng, self.o, self.fl, self.n, self.sc = rng, o, flavor, n, scalar
        self.nr, self.nb = nr, nb
        self.tensor = flavor in ("d", "dt", "w")
        self.sparse = flavor in ("s", "ws")
        self.large = large               # 1: hundreds of coefficients, 2: thousands
        lim = 9400 if large == 2 else 1200 if large else 130 if big else 45
        if large:
            top = 9000 if large == 2 else 1500
        self.dmax = dmax if dmax is not None else max(d for d in range(0, depth(n) - 1 if large else 9) if d == 0 or start(n, d + 1) <= lim) if self.tensor else 0
        if self.tensor and n > 1 and self.dmax == 0:
            self.dmax = 1
        self.top = top
        self.float = scalar in ("f64", "f32")
        self.cap = 46 if scalar == "f64" else 20
        # floats: bound on the bits before and after the binary point
        self.hi = {r: 0 for r in range(1, nr + 1)}
        self.lo = {r: 0 for r in range(1, nr + 1)}
        self.bits_b = {}
        self.lent = set()
        o("begin vec", flavor, n, scalar, maxd, nr, nb)

    # ---- arguments
    def reg(self, *no):
        return self.rng.choice([r for r in range(1, self.nr + 1) if r not in no])

    def scal(self, zero=True):
        rng = self.rng
        if self.float:
            if zero and rng.random() < 0.05:
                return "0"
            m = rng.choice([1, 1, 2, 3, 5, -1, -2, -3, 7])
            return str(m) if rng.random() < 0.8 else "%d/%d" % (m, rng.choice([2, 4]))
        if self.sc == "p5":
            return str(rng.randint(0 if zero else 1, 4))
        c = rng.random()
        if c < 0.08 and zero:
            return "0"
        if c < 0.3:
            return str(rng.choice([1, -1, 2, -2, 3]))
        return str(rng.randint(1, 46336))

    def quot(self):
        rng = self.rng
        if self.float:
            return rng.choice(["1", "2", "-2", "4", "1/2", "-1/4", "-1"])
        return self.scal(False)

    def sbits(self, t):
        """bits of a scalar before and after the point"""
        a, _, b = t.partition("/")
        return abs(int(a)).bit_length(), (int(b).bit_length() - 1 if b else 0)

    def key(self, beyond=0):
        rng = self.rng
        if not self.tensor:
            return str(rng.randint(0, self.top) if self.large else rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, self.top)]))
        d = rng.randint(0, self.dmax + beyond)
        if self.large and rng.random() < 0.5:
            d = self.dmax
        return tok([rng.randint(1, self.n) for _ in range(d)])

    def far(self):
        """a key far beyond every vector, also one that looks near when its index is cut to fewer bits"""
        rng = self.rng
        i = (rng.choice([1, 1, 1, rng.randint(1, 2 ** 20)]) << rng.choice([16, 24, 31, 32, 32, 33, 40, 48])) + rng.randint(0, 12)
        if not self.tensor:
            return str(i % (2 ** 31 - 1) if i >= 2 ** 31 - 1 else i)
        i %= min(2 ** 64, start(self.n, depth(self.n) + 1))
        w = []
        while i:
            w.append((i - 1) % self.n + 1)
            i = (i - 1) // self.n
        return tok(w[::-1])

    def pairs(self, k=None):
        rng = self.rng
        k = rng.choice([9, 16, 17, 40, 65, 130, 257, 300, 600] + [290, 400, 600] * self.sparse + [1100] * (self.large == 2) if self.large else [0, 1, 2, 3, 4, 6, 9]) if k is None else k
        ks = [self.key() for _ in range(k)]
        if k and rng.random() < 0.5:             # some of them more than once
            ks = [rng.choice(ks) for _ in range(k)]
        ps = [(w, self.scal()) for w in ks]
        if ps and rng.random() < 0.3:            # cancel one
            w, x = rng.choice(ps)
            ps.append((w, x[1:] if x.startswith("-") else "-" + x))
        return ",".join("%s=%s" % p for p in ps) if ps else "_"

    def dim(self):
        rng = self.rng
        if self.tensor:
            d = rng.randint(self.dmax // 2 if self.large else 0, self.dmax + 1)
            return max(0, min(start(self.n, self.dmax + 1), start(self.n, d) + rng.choice([0, 0, 0, -1, 1, rng.randint(0, 5)])))
        return rng.choice([rng.randint(0, self.top), 4 * rng.randint(0, self.top // 4)]) if self.large else rng.randint(0, self.top)

    def vec(self):
        rng = self.rng
        k = self.dim()
        z = rng.choice([0, 0.3, 0.8])
        return ",".join("0" if rng.random() < z else self.scal() for _ in range(k)) if k else "_"

    def deg(self):
        return self.rng.randint(0, self.dmax)

    # ---- float bookkeeping: every result stays exact
    def fits(self, hi, lo):
        return not self.float or hi + lo <= self.cap

    def set(self, r, hi, lo):
        self.hi[r], self.lo[r] = hi, lo

    def setup(self, r):
        """a fresh vector in r"""
        rng, o = self.rng, self.o
        c = rng.random()
        if self.sparse:
            op = "fromit" if c < 0.7 else rng.choice(["new", "fromkey", "fromks"])
        elif c < 0.45:
            op = "fromvec"
        else:
            op = rng.choice(CONS)
        self.do(op, r)

    def bufs(self):
        for y in range(1, self.nb + 1):
            self.o("buf", y, self.vec())

    def do(self, op, r=None):
        """one call; returns False if it was not possible"""
        rng, o, H, L = self.rng, self.o, self.hi, self.lo
        r = r or self.reg()
        big = (5, 4) if self.float else (0, 0)
        dim_bits = 8
        if op in ("new", "fromdim", "fromkey"):
            a = {"new": [], "fromdim": [self.dim()], "fromkey": [self.key()]}[op]
            o(op, r, *a); self.set(r, 1, 0)
        elif op == "fromks":
            o(op, r, self.key(), self.scal()); self.set(r, *big)
        elif op in ("fromit", "fromvec"):
            o(op, r, self.pairs() if op == "fromit" else self.vec()); self.set(r, big[0] + 4, big[1])
        elif op in ("borrow", "borrowmut"):
            free = [y for y in range(1, self.nb + 1) if y not in self.lent]
            if not free:
                return False
            y = rng.choice(free)
            if op == "borrowmut":
                self.lent.add(y)
            elif rng.random() < 0.5:
                self.lent.add(y)
            else:
                self.lent.add(y)
            o(op, r, y); self.set(r, *big)
        elif op in ("clone", "own", "rewrap", "neg"):
            a = self.reg(r); o(op, r, a); self.set(r, H[a], L[a])
        elif op in ("exp", "log"):
            a = self.reg(r); o(op, r, a)
        elif op == "fmexp":
            a = self.reg(r); o(op, r, a)
        elif op == "swap":
            a = self.reg(r); o(op, r, a)
            H[r], H[a], L[r], L[a] = H[a], H[r], L[a], L[r]
        elif op in ("add", "sub"):
            a, b = self.reg(r), self.reg(r)
            hi, lo = max(H[a], H[b]) + 1, max(L[a], L[b])
            if not self.fits(hi, lo):
                return False
            o(op, r, a, b); self.set(r, hi, lo)
        elif op in ("smr", "sml", "sdr", "sdl", "smli", "smri", "sdri", "sdli"):
            out = op in ("smr", "sml", "sdr", "sdl")
            a = self.reg(r) if out else r
            t = self.scal() if op.startswith("sm") else self.quot()
            h, l = self.sbits(t)
            hi, lo = (H[a] + h, L[a] + l) if op.startswith("sm") else (H[a] + l, L[a] + h)
            if not self.fits(hi, lo):
                return False
            o(op, r, *([a] if out else []), t); self.set(r, hi, lo)
        elif op == "negi":
            o(op, r)
        elif op in ("addi", "subi"):
            a = self.reg(r)
            hi, lo = max(H[a], H[r]) + 1, max(L[a], L[r])
            if not self.fits(hi, lo):
                return False
            o(op, r, a); self.set(r, hi, lo)
        elif op in ("asrm", "aslm", "ssrm", "sslm", "asrd", "asld", "ssrd", "ssld"):
            a = self.reg(r)
            mult = op.endswith("m")
            t = self.scal() if mult else self.quot()
            h, l = self.sbits(t)
            hi, lo = (H[a] + h, L[a] + l) if mult else (H[a] + l, L[a] + h)
            hi, lo = max(hi, H[r]) + 1, max(lo, L[r])
            if not self.fits(hi, lo):
                return False
            o(op, r, a, t); self.set(r, hi, lo)
        elif op in KEYOPS:
            t = self.scal() if op in ("kam", "ksm") else self.quot()
            hi, lo = max(H[r], 5) + 1, max(L[r], 4)
            if not self.fits(hi, lo):
                return False
            o(op, r, self.key(1 if self.tensor and self.n < 4 else 0), t); self.set(r, hi, lo)
        elif op in ("ins1", "getmut"):
            o(op, r, self.far() if op == "getmut" and rng.random() < 0.12 else self.key(), self.scal()); self.set(r, max(H[r], big[0]), max(L[r], big[1]))
        elif op == "ins":
            o(op, r, self.pairs()); self.set(r, max(H[r], big[0]), max(L[r], big[1]))
        elif op in ("erase", "get"):
            o(op, r, self.far() if rng.random() < 0.12 else self.key(1 if self.tensor and self.n < 4 else 0))
        elif op == "near":               # a copy, equal at first, then different in one coefficient or none
            a = self.reg(r)
            o("own", r, a); self.set(r, H[a], L[a])
            o("eq", *rng.choice([(r, a), (a, r)]))
            self.do(rng.choice(["ins1", "ins1", "kam", "erase"]), rng.choice([r, a]))
            o("eq", r, a)
            o("eq", a, r)
        elif op in ("clear", "size", "degree", "fmt", "iter"):
            o(op, r)
        elif op == "resize":
            o(op, r, self.dim())
        elif op in ("getslice", "getmutslice"):
            x, y = self.dim(), self.dim()
            if x > y and rng.random() < 0.8:
                x, y = y, x
            o(op, r, x, y, *([self.scal()] if op == "getmutslice" else []))
            self.set(r, max(H[r], big[0]), max(L[r], big[1]))
        elif op == "getidx":
            o(op, r, self.dim())
        elif op == "eq":
            o(op, r, self.reg())
        elif op == "same":
            o(op, r, self.reg(), self.deg())
        elif op == "heap":
            o(op)
        elif op in PRODS:
            return self.product(op, r)
        else:
            raise KeyError(op)
        return True

    def product(self, op, r):
        rng, o, H, L = self.rng, self.o, self.hi, self.lo
        d = self.deg()
        far = False
        c = rng.random()
        if c < 0.02:
            d = "-"
        elif c < 0.06 and self.large:
            d, far = self.dmax + 1, True
        elif c < 0.06:
            d, far = rng.choice([self.dmax + 1, self.dmax + 2, 2 * self.dmax, 2 * self.dmax + 1, 64, 1000, 2 ** 31, 2 ** 32 - 1]), True
        a = self.reg(r)
        b = self.reg(r)
        x, y = (a, b) if op in ("mul", "comm", "addmul", "submul", "maai") else (r, a)
        hi, lo = H[x] + H[y] + 4, L[x] + L[y]
        extra = []
        if op in ("mul", "comm"):
            args = [r, a, b, d]
        elif op == "muli":
            args = [r, a, d]
        elif op in ("addmul", "submul"):
            args = [r, a, b, d]
            hi, lo = max(hi, H[r]) + 1, max(lo, L[r])
        elif op in ("mslp", "msrp", "mrld", "mrrd"):
            t = self.scal() if op.startswith("ms") else self.quot()
            h, l = self.sbits(t)
            hi, lo = (hi + h, lo + l) if op.startswith("ms") else (hi + l, lo + h)
            args = [r, a, t, d]
        else:
            f = rng.choice(["id", "neg", "sq", "twice", "inc"])
            if f == "sq":
                hi, lo = 2 * hi, 2 * lo
            if f == "inc":               # has a meaning for whole degrees only
                for z in {x, y}:
                    o("resize", z, start(self.n, rng.randint(1, self.dmax + 1)))
                hi += 4
            hi += 1
            if op == "maai":
                args = [r, a, b, f, d]
                hi, lo = max(hi, H[r]) + 1, max(lo, L[r])
            else:
                args = [r, a, f, d]
        hi += 1
        if not self.fits(hi, lo):
            return False
        if d == "-":
            o(op, *args)
            return True
        o(op, *args); self.set(r, hi, lo)
        if far:                          # the result may be large
            self.setup(r)
        return True

    def run(self, ops, steps, fuses=0):
        """steps calls out of ops (a list, repeats weigh); registers are filled first"""
        if self.nb:
            self.bufs()
        for r in range(1, self.nr + 1):
            if self.nb and self.rng.random() < 0.7 and self.do(self.rng.choice(["borrow", "borrowmut"]), r):
                continue
            self.setup(r)
        done = 0
        for _ in range(6 * steps):
            if done >= steps:
                break
            if self.rng.random() < 0.12:
                r = self.reg()
                if self.nb and self.rng.random() < 0.3 and self.do(self.rng.choice(["borrow", "borrowmut"]), r):
                    continue
                self.setup(r)
                continue
            if self.rng.random() < fuses and not self.float:
                self.o("fuse", self.rng.choice([0, 1, 2, 3, self.rng.randint(0, 12), self.rng.randint(0, 60)]))
            if self.do(self.rng.choice(ops)):
                done += 1
            elif self.rng.random() < 0.5:
                self.setup(self.reg())


def sweep(rng, o, flavor, n, scalar, ops, size, nb=0):
    """every one of ops once, on vectors of about size coefficients, nearly all of them set"""
    v = Vec(rng, o, flavor, n, scalar, nr=3, nb=nb, large=2 if size > 1300 else 1)

    def some():
        return max(1, size + rng.choice([0, rng.randint(-8, 8), rng.randint(0, size // 16)]))

    def filled(r, lend=False):
        k = some()
        if v.sparse:
            o("fromit", r, ",".join("%d=%s" % (x, v.scal()) for x in rng.sample(range(3 * k), k)))
        elif lend:
            o("buf", r, ",".join(v.scal() for _ in range(k)))
            o(rng.choice(["borrow", "borrowmut"]), r, r)
        else:
            o("fromvec", r, ",".join(v.scal() for _ in range(k)))
    v.dim = lambda: rng.choice([some(), some(), rng.randint(0, size), rng.randint(0, 2)])
    v.lent = {1, 2, 3}
    for r in (1, 2, 3):
        filled(r, nb and rng.random() < 0.8)
    for op in ops:
        if rng.random() < 0.3:
            filled(rng.randint(1, 3))
        if op == "resize":               # all the way down, and up again
            r = rng.randint(1, 3)
            o(op, r, 0)
            o(op, r, rng.choice([0, 1, some()]))
            filled(r)
        v.do(op)


def laws(rng, o, flavor, n, scalar, dmax):
    """C18: the laws, computed by the library and compared"""
    v = Vec(rng, o, flavor, n, scalar, nr=12, dmax=dmax)
    D = dmax
    for r in (1, 2, 3):
        c = rng.random()
        if c < 0.6:
            o("fromvec", r, v.vec())
        elif c < 0.9:
            o("fromit", r, v.pairs())
        else:
            o("fromkey", r, v.key())
    x, y, z = 1, 2, 3
    s = v.scal()
    c = rng.randrange(6)
    if c == 0:
        o("mul", 4, x, y, D); o("mul", 5, 4, z, D); o("mul", 6, y, z, D); o("mul", 7, x, 6, D)
        o("same", 5, 7, D)
    elif c == 1:
        o("add", 4, x, y); o("mul", 5, 4, z, D); o("mul", 6, x, z, D); o("mul", 7, y, z, D); o("add", 8, 6, 7)
        o("same", 5, 8, D)
        o("mul", 5, z, 4, D); o("mul", 6, z, x, D); o("mul", 7, z, y, D); o("add", 8, 6, 7)
        o("same", 5, 8, D)
    elif c == 2:
        o("sml", 4, x, s); o("mul", 5, 4, y, D); o("mul", 6, x, y, D); o("sml", 7, 6, s); o("same", 5, 7, D)
        o("smr", 4, y, s); o("mul", 5, x, 4, D); o("same", 5, 7, D)
        o("fromkey", 8, "."); o("mul", 9, 8, x, D); o("same", 9, x, D); o("mul", 9, x, 8, D); o("same", 9, x, D)
    elif c == 3:
        o("comm", 4, x, y, D); o("comm", 5, y, x, D); o("neg", 6, 5); o("same", 4, 6, D)
        o("comm", 7, x, x, D); o("new", 8); o("same", 7, 8, D)
    elif c == 4:
        o("comm", 4, y, z, D); o("comm", 5, x, 4, D)
        o("comm", 6, z, x, D); o("comm", 7, y, 6, D)
        o("comm", 8, x, y, D); o("comm", 9, z, 8, D)
        o("add", 10, 5, 7); o("add", 11, 10, 9); o("new", 12); o("same", 11, 12, D)
    else:
        for _ in range(3):
            k1, k2 = [[rng.randint(1, n) for _ in range(rng.randint(0, D))] for _ in range(2)]
            o("fromkey", 4, tok(k1)); o("fromkey", 5, tok(k2)); o("mul", 6, 4, 5, D)
            if len(k1) + len(k2) <= D:
                o("fromcat", 7, tok(k1), tok(k2))
            else:
                o("new", 7)
            o("same", 6, 7, D)


def laws_huge(rng, o, n, D):
    """C18: products of a few long words among thousands of coefficients"""
    o("begin vec d", n, "p", 0, 8, 0)
    def w(k):
        return tok([rng.randint(1, n) for _ in range(k)])
    def few(k):
        return ",".join("%s=%d" % (w(k), rng.randint(1, 46336)) for _ in range(3))
    for _ in range(2):
        total = rng.choice([D, D, D - 1])
        a = rng.choice([total // 2, total // 2, rng.randint(0, total)])
        k1, k2 = w(a), w(total - a)
        o("fromkey", 4, k1); o("fromkey", 5, k2); o("mul", 6, 4, 5, D)
        o("fromcat", 7, k1, k2); o("same", 6, 7, D)
    a = rng.choice([(D + 1) // 2, D // 2, rng.randint(0, D)])
    o("fromit", 1, few(a)); o("fromit", 2, few(a)); o("fromit", 3, few(D - a))
    if rng.random() < 0.5:
        o("add", 4, 1, 2); o("mul", 5, 4, 3, D); o("mul", 6, 1, 3, D); o("mul", 7, 2, 3, D); o("add", 8, 6, 7)
    else:
        o("fromit", 1, few(1)); o("mul", 4, 1, 2, D); o("mul", 5, 4, 3, D); o("mul", 6, 2, 3, D); o("mul", 8, 1, 6, D)
    o("same", 5, 8, D)


HUGE = [(2, 13), (3, 8), (4, 6), (10, 4), (12, 4), (16, 3), (20, 3), (5, 5), (7, 4), (33, 2), (1, 40), (6, 5), (8, 4), (9, 4), (11, 4)]


def products_huge(rng, o, n, D, ops):
    """products with many words of one degree on both sides"""
    v = Vec(rng, o, "d", n, "p", nr=4, dmax=D)
    a = rng.choice([(D + 1) // 2, D // 2, D // 2, rng.randint(0, D)])
    def vec(k):
        lo, hi = start(n, k), start(n, k + 1)
        m = rng.choice([hi, hi, hi - 1, rng.randint(lo + 1, hi)])
        z = rng.choice([0, 0.3, 0.9, 0.99])
        return ",".join("0" if rng.random() < z else str(rng.randint(1, 46336)) for _ in range(m)) or "_"
    o("fromvec", 1, vec(a)); o("fromvec", 2, vec(D - a)); o("fromvec", 3, vec(rng.randint(0, 1)))
    for _ in range(2):
        op = rng.choice(ops)
        x, y = rng.choice([(1, 2), (1, 2), (2, 1), (1, 3), (3, 1)])
        d = rng.choice([D, D, D - 1, 2 * D if (x, y) == (1, 3) and n < 5 else D])
        t = rng.randint(1, 46336)
        if op in ("mul", "comm"):
            o(op, 4, x, y, d)
        elif op in ("addmul", "submul"):
            o("own", 4, 3); o(op, 4, x, y, d)
        elif op == "maai":
            o("own", 4, 3); o(op, 4, x, y, rng.choice(["id", "neg", "sq", "twice"]), d)
        else:
            o("own", 4, x)
            o(op, 4, y, *({"muli": [], "mii": [rng.choice(["id", "neg", "sq", "twice"])]}.get(op, [t])), d)


def series(rng, o, flavor, n, scalar, D):
    """C19: exp, log, fmexp against their series and against each other"""
    v = Vec(rng, o, flavor, n, scalar, maxd=D, nr=8, dmax=D)
    fl = v.float
    even = lambda: str(2 * rng.randint(-3, 3))

    def tensor(const):
        k = rng.choice([0, 1, v.dim(), start(n, D + 1), start(n, D + 1), start(n, max(D, 1))])
        z = rng.choice([0, 0.3, 0.8])
        xs = ["0" if rng.random() < z else (even() if fl else v.scal()) for _ in range(k)]
        if const is not None:
            if xs:
                xs[0] = str(const)
            elif const:
                xs = [str(const)]
        return ",".join(xs) if xs else "_"
    o("fromvec", 1, tensor(0)); o("fromvec", 2, tensor(1)); o("fromvec", 3, tensor(None)); o("fromvec", 4, tensor(None))
    o("exp", 5, 1)
    o("log", 6, 5); o("same", 6, 1, D)
    if not fl:
        o("log", 6, 2); o("exp", 7, 6)
        o("same", 7, 2, D)
        o("fmexp", 3, 1)
        o("fmexp", 4, 2)
        o("fromvec", 3, tensor(None)); o("fromvec", 4, tensor(None)); o("fmexp", 3, 4)
        o("fromkey", 8, "."); o("fmexp", 8, 1); o("same", 8, 5, D)
        if flavor != "dt":
            o("fromvec", 3, tensor(None)); o("mul", 7, 3, 5, D); o("fmexp", 3, 1); o("same", 3, 7, D)
        # sparse arguments: a single word
        o("fromks", 1, v.key(), v.scal())
        o("erase", 1, ".")
        o("exp", 5, 1)
    else:
        o("fromvec", 3, tensor(None)); o("fmexp", 3, 1)


# -------------------------------------------------------------------------------------------- Lie

TABLE_WIDTHS = list(range(1, 34)) + [36, 40, 50, 63, 64, 65, 100, 127, 128, 255, 256, 257, 500, 1000, 1024, 4096, 10000, 65535, 65536, 1000000, 16777216, 1073741824, 2147483647]
CACHE_WIDTHS = list(range(1, 27)) + [30, 32, 33, 40, 50, 64, 100, 127, 128, 255, 256, 257, 258, 272, 300, 512, 513, 1000, 1024, 4096, 65535,
                                     65536, 65537, 65538, 65552, 1000000, 16777217, 16777218, 2147483647]
HKEY_WIDTHS = [1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 4096, 65535, 65536, 100000, 131072, 262143]


def top_degree(n):
    d = 0
    while d < (170 if n == 1 else 62) and n ** (d + 1) < 2 ** 63:
        d += 1
    return d


def lyndon(n, top):
    ls = [0]
    for k in range(1, top + 1):
        ls.append((n ** k - sum(d * ls[d] for d in range(1, k) if k % d == 0)) // k)
    return ls


def table_sizes(rng, n, o, cap=170):
    """C21: every degree, whatever the history"""
    top = min(top_degree(n), cap)
    o("begin table", n)
    c = rng.random()
    if c < 0.4:
        o("tnew", rng.randint(0, top + 1))
    length = 0
    for _ in range(rng.randint(1, 5)):
        c = rng.random()
        if c < 0.25:
            o("tnew", rng.randint(0, top + 1))
        else:
            o("grow", rng.choice([0, 1, top, rng.randint(0, top), rng.randint(0, top)]))
        for d in sorted({rng.randint(0, top + 1) for _ in range(4)} | {0, top}):
            o("get", d)
    for d in range(0, top + 2):
        o("get", d)
    for b in (8, 16, 24, 30):            # far beyond, also if cut to fewer bits
        o("get", max(top + 1, (rng.randint(1, 2) << b) - rng.choice([1, 0]) + rng.randint(0, 3)) % (2 ** 31 - 1))


def table_find(rng, n, o, cap=170):
    """C22"""
    top = min(top_degree(n), cap)
    cum = [0]
    for c in lyndon(n, top)[1:]:
        cum.append(cum[-1] + c)
    o("begin table", n)
    o("find", 1)
    o("tnew", rng.choice([0, 1, 2, rng.randint(0, top + 1)]))
    for _ in range(3):
        o("grow", rng.randint(0, top))
        for d in range(top + 1):
            if rng.random() < 0.4:
                for k in (cum[d] - 1, cum[d], cum[d] + 1):
                    if k > 0:
                        o("find", k)
        for _ in range(4):
            d = rng.randint(1, top) if top else 0
            o("find", rng.randint(1, max(1, cum[d])))
        o("find", rng.choice([cum[-1] + 1, 2 ** 63 - 1, 2 ** 64 - 1]))


def cache(rng, o, threads):
    """C23: one process"""
    ws = CACHE_WIDTHS[:]
    rng.shuffle(ws)
    o("begin cache")
    for k, w in enumerate(ws):
        c = rng.random()
        if c < 0.6:
            o("race", w, rng.choice(threads), rng.randint(1, 3), rng.choice([-1, 0, 1, 2, 5]))
        elif c < 0.75:
            o("storm", w, rng.choice(threads), rng.randint(1, 3))
        elif c < 0.85:
            o("hget", w, rng.choice([-1, 0, 3, 7, 40]))
        elif k >= 2:
            o("mixed", ".".join(map(str, [w, ws[k - 1], w, ws[k - 2], rng.choice(ws[:k]), w])))
        o("hget", w, -1)
        o("hget", rng.choice(ws[:k + 1]), rng.choice([0, 2, 9, 31, 1000]))
        for i in {0, 1, w, w + 1, rng.randint(1, w), 2 * w, 2 ** 32 + 1, 2 ** 63}:
            o("isletter", w, i)
        for d in sorted({0, 1, rng.randint(0, 4), rng.randint(0, 12), 6, 7, 18, 19, rng.randint(10, 28), 28, 29}):
            if w ** (d + 1) < 2 ** 62:
                o("range", w, d)
        for b in (8, 16, 24, 30):        # far beyond, also if cut to fewer bits
            o("range", w, min(2 ** 31 - 2, (rng.randint(1, 2) << b) + rng.randint(-1, 3)))
        for i in (0, 1, w, w + 1, rng.randint(1, 10 ** 6)):
            o("details", w, i)
    for _ in range(8):
        o("storm", rng.choice(ws), rng.choice(threads), rng.randint(2, 6))


def hall_keys(rng, o, steps):
    """C24"""
    o("begin hallkeys")
    edge = lambda b: rng.choice([0, 1, 2, 2 ** b - 1, 2 ** b - 2, 2 ** (b - 1), rng.randrange(2 ** b), rng.randrange(2 ** b), rng.randrange(2 ** rng.randint(1, b))])
    for w in HKEY_WIDTHS:
        o("hnew", w)
        for l in {1, w, (w + 1) // 2}:
            o("hletter", w, l)
    for _ in range(steps):
        w = rng.choice(HKEY_WIDTHS)
        if rng.random() < 0.3:
            o("hletter", w, rng.randint(1, w))
        else:
            o("hparts", w, max(1, edge(18)), edge(18), edge(18), max(1, edge(10)))


# ----------------------------------------------------------------------------------------- floats

ROUNDED = ["rneg", "radd", "rsub", "rsm", "rsd", "ram", "rsbm", "rad", "rsbd"]
ROUNDEDKEY = ["rkam", "rksm", "rkad", "rksd"]


def rounded(rng, o, fl, kind, ops, steps):
    """vectors whose coefficients need rounding, operands of any sizes"""
    p = 53 if kind == "f64" else 24
    o("begin rvec", fl, kind)

    def val(zero=True):
        c = rng.random()
        if zero and c < 0.12:
            return "0:0"
        m = rng.randint(1, 20) if c < 0.5 else 2 ** (p - 1) + rng.randint(0, 3) if c < 0.6 else 2 ** p - rng.randint(1, 3) if c < 0.7 else \
            rng.randrange(2 ** (p - 1), 2 ** p)
        e = 0 if m < 21 and rng.random() < 0.5 else rng.randint(-4, 4) - (p - 4) * (m > 20)
        if rng.random() < 0.15:
            e += rng.randint(-200, 200) if kind == "f64" else rng.randint(-25, 25)
        return "%d:%d" % (m if rng.random() < 0.6 else -m, e)
    def vec():
        return ",".join(val() for _ in range(rng.choice([0, 1, 2, 3, 3, 7, 15, rng.randint(0, 16)]))) or "_"
    for _ in range(steps):
        op = rng.choice(ops)
        a = vec()
        if op in ROUNDEDKEY:
            o(op, a, rng.randint(0, 16), val(False))
        else:
            b = vec()
            if rng.random() < 0.2:
                # close to cancelling
                def near(x):
                    m, e = map(int, x.split(":"))
                    m = m + rng.choice([-1, 1]) if abs(m) < 2 ** p - 1 and rng.random() < 0.4 else m
                    return "%d:%d" % (m * rng.choice([-1, 1]), e)
                b = ",".join(near(x) if rng.random() < 0.7 else val() for x in a.split(",")) if a != "_" else b
            o(op, a, b, val(False))


def coef(rng, o, kind, steps):
    """C20"""
    p = 53 if kind == "f64" else 24
    span = 60 if kind == "f64" else 40
    least, most = (-1074, 971) if kind == "f64" else (-149, 104)
    o("begin coef", kind)
    o("fconst")

    def val(zero=True):
        c = rng.random()
        if zero and c < 0.06:
            return (0, 0)
        if c > 0.95:                     # below the normal range, and just in it
            m = rng.choice([rng.randrange(2 ** (p - 5), 2 ** (p - 1)), 2 ** (p - 1) + rng.choice([-2, -1, 0, 1]), 2 ** (p - 3) + rng.choice([-1, 0, 1])])
            return (m if rng.random() < 0.6 else -m, least)
        if c < 0.35:
            m = rng.randint(1, 20)
        elif c < 0.5:
            m = 2 ** (p - 1) + rng.choice([0, 1, 2])
        elif c < 0.65:
            m = 2 ** p - rng.choice([1, 2, 3])
        else:
            m = rng.randrange(2 ** (p - 1), 2 ** p)
        c = rng.random()
        e = 0 if c < 0.3 else rng.randint(-span, span) if c < 0.75 else rng.randint(least, most)
        if c > 0.95:
            e = rng.choice([least, least + 1, least + 2, most - 1, most])
        elif c > 0.9:
            e = rng.choice([least // 2 + rng.randint(-p, p), most // 2 + rng.randint(-p, p)])
        while m.bit_length() + e > most + p:
            e -= 1
        return (m if rng.random() < 0.6 else -m, e)
    f = lambda v: "%d:%d" % v
    for _ in range(steps):
        c = rng.random()
        if c < 0.1:
            o("fneg", f(val()))
        elif c < 0.2:
            v = val(False)
            o("finv", f(v if v[0].bit_length() + v[1] > least else (v[0], 0)))
        elif c < 0.3:
            o("fdeg", rng.choice([rng.randint(0, 40), 2 ** 24 + rng.randint(-3, 3), rng.randrange(2 ** 32), 2 ** 32 - 1]))
        elif c < 0.5:
            a, b = val(), val(False)
            o(rng.choice(["fdiv", "frat"]), f(a), f(b if b[0].bit_length() + b[1] > least else (b[0], 0)))
        else:
            a = val()
            b = val()
            if rng.random() < 0.3 and a[0]:
                b = (rng.choice([a[0], -a[0], a[0] + 1]), a[1])
            o(rng.choice(["fadd", "fsub", "fmul"]), f(a), f(b))
