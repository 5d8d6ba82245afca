from .common import *
from .C24 import bytes_of, le32, Z

BOUNDS = ("compressed strings of one or two blocks: the payload of 4 literal/match alphabets (code lengths up to 9) with every pattern of up to 10 (thorough 13) payload bits, with and without a declared output length; code-length tables with every "
          "pattern of their bits (up to 4 entries, the unary extension and the skip after the third entry included); the three kinds of skips in the character table; single-symbol tables with every "
          "9-bit symbol; strings cut at any bit; 8 free bits after 1 and 70 (thorough 280) copies of 256 elements; HUS files whose three streams hold up to 3 records with every command and 4 displacements each.")
OUTSIDE = ("incomplete or oversubscribed code tables, back-references before the start of the output, blocks of no elements (not valid streams); longer payloads.")
DEADLINE = 110


class Bits:
    def __init__(self):
        self.b = []

    def put(self, v, n):
        for i in range(n - 1, -1, -1):
            self.b.append(v >> i & 1)
        return self

    def code(self, lengths, sym):
        v, n = canonical(lengths)[1][sym]
        return self.put(v, n)

    def var(self, v):
        """a code length: three bits, seven continues in unary"""
        if v < 7:
            return self.put(v, 3)
        self.put(7, 3)
        for _ in range(v - 7):
            self.put(1, 1)
        return self.put(0, 1)

    def bytes(self):
        b = self.b + [0] * (-len(self.b) % 8)
        return [sum((b[i + j] * (128 >> j) for j in range(8)), 0) for i in range(0, len(b), 8)]


def canonical(lengths):
    """canonical prefix code: shorter codes first, equal lengths by index -> ((length, code) -> symbol, symbol -> (code, length))"""
    dec, enc, code = {}, {}, 0
    for n in range(1, max(lengths) + 1):
        for s, l in enumerate(lengths):
            if l == n:
                dec[n, code] = s
                enc[s] = (code, n)
                code += 1
        code <<= 1
    return dec, enc


def complete(lengths):
    m = max(lengths) if lengths else 0
    return m > 0 and sum(1 << (m - l) for l in lengths if l) == 1 << m


class Oracle:
    """the format, bit by bit"""

    def __init__(self, ctx, bits):
        self.ctx, self.b, self.i = ctx, bits, 0

    def bit(self):
        v = self.b[self.i] if self.i < len(self.b) else 0
        self.i += 1
        return v if isinstance(v, int) else int(bool(v == 1))

    def take(self, n):
        v = 0
        for _ in range(n):
            v = 2 * v + self.bit()
        return v

    def number(self, n):
        """n bits without deciding them"""
        v = 0
        for _ in range(n):
            v = 2 * v + (self.b[self.i] if self.i < len(self.b) else 0)
            self.i += 1
        return v

    def var(self):
        v = self.take(3)
        if v < 7:
            return v
        for _ in range(13):
            if not self.bit():
                break
            v += 1
        return v

    def symbol(self, table):
        kind, t = table
        if kind == "one":
            return t
        code = n = 0
        while True:
            code, n = 2 * code + self.bit(), n + 1
            if (n, code) in t:
                return t[n, code]
            if n > 16:
                raise AssertionError

    def table(self, lengths):
        if not complete(lengths):
            self.ctx.stop()
        return "code", canonical(lengths)[0]

    def block(self):
        n = self.take(5)
        if n == 0:
            lt = "one", self.take(5)
        else:
            ls = []
            while len(ls) < n:
                if len(ls) == 3:
                    ls += [0] * self.take(2)
                    if len(ls) >= n:
                        self.ctx.stop()
                ls.append(self.var())
            lt = self.table(ls)
        n = self.take(9)
        if n == 0:
            ct = "one", self.number(9)
        else:
            ls = []
            while len(ls) < n:
                c = self.symbol(lt)
                if c == 0:
                    ls.append(0)
                elif c == 1:
                    ls += [0] * (3 + self.take(4))
                elif c == 2:
                    ls += [0] * (20 + self.take(9))
                else:
                    ls.append(c - 2)
            ct = self.table(ls)
        n = self.take(5)
        if n == 0:
            dt = "one", self.take(5)
        else:
            dt = self.table([self.var() for _ in range(n)])
        return ct, dt

    def run(self, limit=None):
        out, left = [], 0
        while self.i < 8 * ((len(self.b) + 7) // 8) and (limit is None or len(out) < limit):
            if left == 0:
                left = self.take(16)
                if left == 0:
                    self.ctx.stop()
                ct, dt = self.block()
            left -= 1
            c = self.symbol(ct)
            if bool(c <= 255):
                out.append(c)
            elif bool(c == 510):
                break
            else:
                if not isinstance(c, int):
                    if not bool(c <= 259):
                        self.ctx.stop()
                    c = [k for k in range(256, 260) if bool(c == k)][0]
                p = self.symbol(dt)
                if p > 1:
                    if p > 12:
                        self.ctx.stop()
                    p = (1 << p - 1) + self.take(p - 1)
                if p + 1 > len(out):
                    self.ctx.stop()
                for _ in range(c - 253):
                    out.append(out[-p - 1])
        return out


LT = [2, 0, 2, 2, 2]  # length symbols 0 skip, 2 long skip, 3 length 1, 4 length 2
LT2 = [3, 3, 2, 3, 3, 3, 3]  # the same with 1 medium skip, 5 length 3, 6 length 4


def chars(bits, lengths, lt, skips=True):
    """write a character table {symbol: length}"""
    bits.put(len(lt), 5)
    i = 0
    while i < len(lt):
        if i == 3:
            bits.put(0, 2)
        bits.var(lt[i])
        i += 1
    top = max(lengths) + 1
    bits.put(top, 9)
    i = 0
    while i < top:
        if i in lengths:
            bits.code(lt, lengths[i] + 2)
            i += 1
            continue
        run = 0
        while i + run not in lengths:
            run += 1
        if run >= 20:
            bits.code(lt, 2).put(run - 20, 9)
            i += run
        elif run >= 3 and lt[1]:
            bits.code(lt, 1).put(min(run, 18) - 3, 4)
            i += min(run, 18)
        else:
            bits.code(lt, 0)
            i += 1


def positions(bits, lengths):
    bits.put(len(lengths), 5)
    for l in lengths:
        bits.var(l)


LT3 = [1, 2, 3, 4, 5, 6, 7, 8, 8]  # the same with code lengths that end in unary; 7 length 5, 8 length 6

ALPHA = {
    "long": (LT3, {65: 1, 256: 2, 257: 3, 66: 4, 67: 5, 68: 6, 510: 6}, [8, 9, 9, 7, 6, 5, 4, 3, 2, 1]),
    "letters": (LT, {65: 2, 66: 2, 67: 2, 510: 2}, [1, 1]),
    "match": (LT2, {7: 2, 200: 2, 256: 2, 257: 3, 510: 3}, [1, 2, 2]),
    "deep": (LT2, {0: 1, 255: 2, 256: 3, 300: 4, 258: 4}, [2, 2, 2, 3, 3]),
}


def expand(ctx, bits, limit=None):
    data = bits.bytes()
    m = ctx.module("EmbCompress")
    d = bytes_of(ctx, data)
    if not ctx.symbolic:
        d = bytearray(d)
    return m.expand(d) if limit is None else m.expand(d, limit)


def agree(ctx, bits, limit=None):
    want = Oracle(ctx, bits.b).run(limit)
    got = expand(ctx, bits, limit)
    ctx.observe(list(got))
    if len(got) != len(want):
        ctx.fail("%d elements instead of %d" % (len(got), len(want)))
    ctx.check(ctx.eq(list(got), list(want)), "elements differ from the format's")
    if want:
        ctx.cover("out")
    ctx.cover("end")


def free(ctx, bits, n, name="b"):
    for i in range(n):
        bits.b.append(ctx.int("%s%d" % (name, i), 0, 1))


def payload(ctx, alpha, n, elements=9, limits=(None,)):
    """a literal first, then any bits"""
    lt, cs, ps = ALPHA[alpha]
    b = Bits().put(elements, 16)
    chars(b, cs, lt)
    positions(b, ps)
    b.code([cs.get(i, 0) for i in range(511)], min(cs))
    free(ctx, b, n)
    agree(ctx, b, ctx.choose("limit", list(limits)))


def blocks(ctx, n):
    """the second block has its own tables"""
    b = Bits().put(n, 16)
    chars(b, ALPHA["letters"][1], LT)
    positions(b, [1, 1])
    free(ctx, b, 2 * n)
    b.put(3, 16)
    chars(b, ALPHA["match"][1], LT2)
    positions(b, [1, 2, 2])
    free(ctx, b, 5, "c")
    agree(ctx, b)


def lengths(ctx, where, count, free_bits):
    """every pattern of the bits of a code-length table"""
    b = Bits().put(60, 16)
    if where == "char":
        b.put(count, 5)
        ext = ctx.choose("long", [False, True])  # lengths up to 3, or three long ones that end in unary
        skip = ctx.choose("skip", list(range(count - 3)))
        for i in range(count - skip):
            if i == 3:
                b.put(skip, 2)
            if not ext or i < 2:
                b.put(0, 1)
                free(ctx, b, 2, "l%d." % i)
            else:
                b.put(7, 3)
                free(ctx, b, 1, "u%d." % i)
                b.put(0, 1)
        b.put(2, 9)
        free(ctx, b, 4, "s")
        positions(b, [1, 1])
        b.put(0b011010, 6)
    else:
        chars(b, ALPHA["match"][1], LT2)
        b.put(count, 5)
        free(ctx, b, free_bits)
        b.put(0, 3).put(1, 2).put(0, 4)
    agree(ctx, b)


def single(ctx, n):
    b = Bits().put(3, 16)
    chars(b, ALPHA["letters"][1], LT)
    positions(b, [1, 1])
    free(ctx, b, 6, "c")
    b.put(n, 16)
    lt = ctx.choose("lt", [0, 3, 5, 31])
    b.put(0, 5).put(lt, 5)
    if lt == 3:  # every character has the length one
        b.put(2, 9)
        b.put(0, 5).put(ctx.choose("pos", [0, 1]), 5)
        b.put(1, 2)
        agree(ctx, b)
        return
    b.put(0, 9)
    free(ctx, b, 9)
    b.put(0, 5).put(ctx.choose("pos", [0, 1]), 5)
    b.b += [0] * (-len(b.b) % 8)
    b.put(0, 8)
    agree(ctx, b, ctx.choose("limit", [2, 2 + n, 3 + n]))


def late(ctx, times, n):
    """overlapping and separate copies far into the output"""
    cs, ps = {7: 2, 9: 2, 256: 2, 509: 2}, [2, 2, 2, 2]
    b = Bits().put(times + 9, 16)
    chars(b, cs, LT)
    positions(b, ps)
    b.code([cs.get(i, 0) for i in range(510)], 7)
    for _ in range(times):          # 256 elements each
        b.code([cs.get(i, 0) for i in range(510)], 509).code(ps, 0)
    free(ctx, b, n)
    agree(ctx, b)


def back(ctx, n):
    """what compress makes of any bytes expands to them"""
    m = ctx.module("EmbCompress")
    at = set(range(n)) if n < 4 else {1, n - 1}
    data = [ctx.int("d%d" % i, 0, 255) if i in at else (i * 7 + i // 256) & 255 for i in range(n)]
    d = bytes_of(ctx, data)
    if not ctx.symbolic:
        d = ctx.choose("type", [bytes, bytearray])(d)
    else:
        ctx.choose("type", [bytes, bytearray])
    c = m.compress(d)
    got = m.expand(c, n) if ctx.choose("declared", [0, 1]) else m.expand(c)
    if len(got) != n:
        ctx.fail("%d bytes compressed and expanded give %d" % (n, len(got)))
    ctx.check(ctx.eq(list(got), data), "compressed and expanded bytes differ")
    ctx.cover("end")


def hus(ctx, n):
    pe = ctx.pe
    cmds = [0x80, 0x81, 0x84, ctx.choose("last", [0x88, 0x90, 0x85])]
    vals = [5, 127, 128, 255] if n == 1 else [127, 254]
    k = [ctx.choose("colors", [0, 2])][0]
    streams, want = [], []
    declared = ctx.choose("declared", [n - 1, n])
    for s, al in (("c", cmds), ("x", vals), ("y", vals)):
        b = Bits().put(n, 16)
        w = 1 if len(al) == 2 else 2
        t = {v: w for v in al}
        chars(b, t, LT)
        positions(b, [1, 1])
        free(ctx, b, w * n, s)
        streams.append(b.bytes())
        o = Oracle(ctx, b.b)
        want.append(o.run(declared))
    cols = [ctx.choose("ci", [0, 3, 28])] * k
    h = le32(0xC8AF5B) + le32(declared) + le32(k) + Z * 8
    off = 42 + 2 * k
    h += le32(off) + le32(off + len(streams[0])) + le32(off + len(streams[0]) + len(streams[1])) + Z * 8 + Z * 2
    for c in cols:
        h += [c, 0]
    assert len(h) == off
    p = pe.EmbPattern()
    ctx.module("HusReader").read(ctx.stream(bytes_of(ctx, h + sum(streams, []))), p)
    out = []
    x = y = 0
    for c, dx, dy in zip(*want):
        if c == 0x90 or c == 0x85:        # the end of the design, no command of the format
            break
        sx, sy = (v - 256 if v > 127 else v for v in (dx, dy))
        if c == 0x88:
            if sx or sy:
                x, y = x + sx, y - sy
                out.append([x, y, pe.JUMP])
            out.append([x, y, pe.TRIM])
        else:
            x, y = x + sx, y - sy
            out.append([x, y, {0x80: pe.STITCH, 0x81: pe.JUMP, 0x84: pe.COLOR_CHANGE}[c]])
    out.append([x, y, pe.END])
    ctx.check(ctx.eq([list(s) for s in p.stitches], out), "hus: records")
    t = ctx.module("EmbThreadHus").get_thread_set()
    ctx.check([c.color for c in p.threadlist] == [t[c].color for c in cols], "hus: threads")
    ctx.cover("end")


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    H = lambda nm, f, w=1.0, cov=("end", "out"), **p: hs.append(Harness(nm, f, p, list(cov), weight=w))
    for a in ALPHA:
        for n in (0, 3, 6, 10) if not T else (0, 5, 10, 13):
            H("%s-%d" % (a, n), payload, w=1 + n / 4, alpha=a, n=n)
        H("%s-few" % a, payload, alpha=a, n=7, elements=3)
        H("%s-declared" % a, payload, alpha=a, n=6, limits=(1, 2, 3))
    for n in (1, 2):
        H("blocks-%d" % n, blocks, n=n)
    for c in (4, 5, 6) if T else (4, 5):
        H("char-lengths-%d" % c, lengths, where="char", count=c, free_bits=0)
    for c in (2, 3, 4):
        H("position-lengths-%d" % c, lengths, where="pos", count=c, free_bits=min(3 * c + 2, 11 if not T else 14))
    for k in (1, 70, 280) if T else (1, 70):
        H("late-%d" % k, late, times=k, n=8)
    H("single", single, n=3)
    for k in (0, 1, 2, 9, 256, 257, 512) + ((4096,) if T else ()):
        H("back-%d" % k, back, cov=("end",), n=k)
    H("hus-1", hus, cov=("end",), n=1)
    H("hus-2", hus, cov=("end",), n=2, w=3)
    return hs
