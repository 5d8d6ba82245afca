from .common import *
from .C34 import words

BOUNDS = ("designs of up to 5 (thorough 6) low-level commands over stitch, jump, trim, colour change, stop, needle set, sequin mode and eject, fast, slow and end (anywhere, repeated) at symbolic positions in "
          "[-300,300] (half-units in one family), written by GenericWriter directly and through write_embroidery, with every chosen subset of command templates, with and without a default "
          "segment template, and templates chosen per value; nesting, order, joins, indices and every position field checked, the rounded ones on half-units too; the statistics count every command.")
OUTSIDE = "templates with format specifications other than plain and fixed point; thread or metadata text needing escapes; the same field used with attribute or index look-ups."
DEADLINE = 120

KINDS = dict(S="stitch", J="jump", T="trim", C="color_change", X="stop", E="sequin", M="sequin_mode", F="fast", L="slow", D="end", N="needle_set")
POS = ["x", "y", "_x", "_y", "dx", "dy", "last_x", "last_y", "_last_x", "_last_y", "ix", "iy", "_ix", "_iy", "idx", "idy", "_idx", "_idy"]
SCOPES = dict(
    pattern_start="(P\n", pattern_end=")P\n",
    document_start="(D {document_index} {document_index1}\n", document_end=")D\n",
    color_start="(C {color_index} {color_index1}\n", color_end=")C\n", color_join="+C\n",
    block_start="(B {block_index} {block_index1}\n", block_end=")B\n", block_join="+B\n")


def commands(ctx, ops):
    pe = ctx.pe
    code = dict(B=pe.COLOR_BREAK, Q=pe.SEQUENCE_BREAK, K=pe.STITCH_BREAK, A=pe.NEEDLE_AT, S=pe.STITCH, J=pe.JUMP, T=pe.TRIM, C=pe.COLOR_CHANGE, X=pe.STOP, E=pe.SEQUIN_EJECT, M=pe.SEQUIN_MODE, F=pe.FAST, L=pe.SLOW, D=pe.END, N=pe.NEEDLE_SET)
    p = pe.EmbPattern()
    for t in THREADS[:4]:
        p.add_thread(t)
    x = y = 0
    for k, a, b in ops:
        if a is not None:
            x, y = a, b
        p.stitches.append([x, y, code[k]])
    return p, {v: k for k, v in code.items()}


def model(cmds, has, have_scope=lambda n: True):
    """what is written for commands [(kind, x, y)]: a list of (tag, index...) and (segment kind, position in cmds);
    `has` the kinds with a template"""
    out = [("(P",)]
    doc = col = blk = False
    nd = nc = nb = 0
    for i, k in enumerate(cmds):
        if k not in has:
            continue  # "missing segments are treated as if they never existed"
        level = 1 if k == "C" else 2 if k in "TN" else 3
        if not doc:
            out.append(("(D", nd, nd + 1))
            doc, nc = True, 0
            nd += 1
        if level > 1 and not col:
            if nc:
                out.append(("+C",))
            out.append(("(C", nc, nc + 1))
            col, nb = True, 0
            nc += 1
        if level > 2 and not blk:
            if nb:
                out.append(("+B",))
            out.append(("(B", nb, nb + 1))
            blk = True
            nb += 1
        out.append((k, i))
        if k in "TCD" and blk:
            blk = False
            out.append((")B",))
        if k in "CD" and col:
            col = False
            out.append((")C",))
        if k == "D":
            doc = False
            out.append((")D",))
    for o, t in ((blk, ")B"), (col, ")C"), (doc, ")D")):
        if o:
            out.append((t,))
    out.append((")P",))
    return out


def lines(ctx, f):
    items = list(f.buf) if hasattr(f, "buf") else list(f.getvalue())
    out, cur = [], []
    for x in items:
        if isinstance(x, int) and x == 10:
            out.append(words(cur))
            cur = []
        else:
            cur.append(x)
    if cur:
        ctx.fail("generic: text after the last line")
    return out


def segment(k, fields, spec=""):
    return "%s|" % k + " ".join("{%s%s}" % (n, spec) for n in fields) + "\n"


def positions(cmds, pts, has, inc):
    """per written command the fields of its position"""
    out, lx, ly, z = {}, 0, 0, 0
    for i, k in enumerate(cmds):
        if k not in has:
            continue
        x, y = pts[i]
        out[i] = dict(x=x, y=y, _x=-x, _y=-y, dx=x - lx, dy=y - ly, last_x=lx, last_y=ly, _last_x=-lx, _last_y=-ly, z=z)
        if k == "S":
            z += inc
        lx, ly = x, y
    return out


def verify(ctx, s, cmds, pts, has, settings, fields, decimals=0, absent=(), inc=10):
    got = lines(ctx, s)
    want = [w for w in model(cmds, has) if w[0] not in absent]
    where = positions(cmds, pts, has, inc)
    conds = []
    px = [0, 0]
    if len(got) != len(want):
        ctx.fail("generic: %d lines instead of %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        text = "".join(x for x in g if isinstance(x, str)).strip()
        nums = [x[0] for x in g if not isinstance(x, str)]
        decs = [x[1] for x in g if not isinstance(x, str)]
        if w[0] in KINDS:
            if text.replace(" ", "") != w[0] + "|":
                ctx.fail("generic: segment %r instead of %s" % (text, w[0]))
            v = dict(zip(fields, nums))
            q = where[w[1]]
            e = 0 if not decimals else 0.5 + 1e-6
            for n in fields:
                if n in q:
                    t = q[n] * 10 ** decimals
                    conds.append(v[n] == t if not decimals else ctx.all([v[n] - t <= e, v[n] - t >= -e]))
            one = 10 ** decimals
            for a, n in ((0, "x"), (1, "y")):
                if "i" + n in v:
                    conds += [v["_i" + n] == -v["i" + n], v["_id" + n] == -v["id" + n], v["id" + n] == v["i" + n] - px[a],
                              v["i" + n] - one * q[n] <= one * 0.5, v["i" + n] - one * q[n] >= -one * 0.5]
                    px[a] = v["i" + n]
            if decimals and any(d != decimals for d in decs):
                ctx.fail("generic: decimals")
        else:
            if text != w[0] or len(nums) != len(w) - 1:
                ctx.fail("generic: %r instead of %r" % (text, w[0]))
            conds.append(ctx.eq(nums, list(w[1:])))
    ctx.check(ctx.all(conds), "generic: positions or indices")
    ctx.cover("end")


def structure(ctx, k, alphabet, drop=(), how="own", first=None, half=False, fields=POS, tie=True, R=300):
    """drop: kinds that may lack a template, chosen per path"""
    pe = ctx.pe
    ops = design(ctx, alphabet, k, R, first=first)
    if half:
        ops = [(o[0], ctx.half("hx%d" % i, -2 * R, 2 * R) if half != "y" else 2 * i, ctx.half("hy%d" % i, -2 * R, 2 * R) if half != "x" else -i) if o[1] is not None else o for i, o in enumerate(ops)]
    p, back = commands(ctx, ops)
    st = dict(SCOPES)
    has = set(KINDS) - {d for d in drop if d in alphabet and ctx.choose("drop" + d, [False, True])}
    spec = ":.1f" if half else ""
    for c, n in KINDS.items():
        if c in has:
            st[n] = segment(c, fields, spec)
    s = ctx.stream()
    if how == "own":
        ctx.module("GenericWriter").write(p, s, st)
    else:
        pe.EmbPattern.write_embroidery(ctx.module("GenericWriter"), p, s, st)
        p = p.get_normalized_pattern(dict(encode=True, writes_speeds=True, sequin_contingency=pe.CONTINGENCY_SEQUIN_UTILIZE))
    cmds = [back[t[2] & MASK] for t in p.stitches]
    pts = [(t[0], t[1]) for t in p.stitches]
    verify(ctx, s, cmds, pts, has, st, fields, decimals=1 if half else 0)


def default(ctx, k, alphabet, first=None):
    """one template for every command, and scopes left out"""
    ops = design(ctx, alphabet, k, 50, first=first)
    p, back = commands(ctx, ops)
    absent = ctx.choose("absent", [(), ("(P", ")P"), ("(D", ")D"), ("(C", ")C"), ("(B", ")B"), ("+C", "+B")])
    names = {"(P": "pattern_start", ")P": "pattern_end", "(D": "document_start", ")D": "document_end", "(C": "color_start", ")C": "color_end", "+C": "color_join",
             "(B": "block_start", ")B": "block_end", "+B": "block_join"}
    st = {n: v for n, v in SCOPES.items() if n not in [names[a] for a in absent]}
    st.update(segment="{x} {y} {cmd_str}", segment_start="<{index} ", segment_end=">\n", segment_join="&")
    s = ctx.stream()
    ctx.module("GenericWriter").write(p, s, st)
    got = lines(ctx, s)
    cmds = [o[0] for o in ops]
    want = [w for w in model(cmds, set(KINDS)) if w[0] not in absent]
    names = {"S": "STITCH", "J": "JUMP", "T": "TRIM", "C": "COLOR_CHANGE", "X": "STOP", "D": "END", "N": "NEEDLE_SET"}
    conds = []
    if len(got) != len(want):
        ctx.fail("generic: %d lines instead of %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        text = "".join(x for x in g if isinstance(x, str))
        nums = [x[0] for x in g if not isinstance(x, str)]
        if w[0] in KINDS:
            if text != "<   %s&>" % names[w[0]]:
                ctx.fail("generic: segment %r" % text)
            conds.append(ctx.eq(nums, [w[1], p.stitches[w[1]][0], p.stitches[w[1]][1]]))
        elif text.strip() != w[0]:
            ctx.fail("generic: %r instead of %r" % (text, w[0]))
    ctx.check(ctx.all(conds), "generic: default segment")
    ctx.cover("end")


def travel(ctx, k):
    """the z field goes up by the setting with every stitch, and only then"""
    ops = design(ctx, "SJTX", k, 50, first="S")
    p, back = commands(ctx, ops)
    inc = ctx.choose("inc", [None, 3, 2.5])
    st = {n: segment(c, ["z"], ":.1f") for c, n in KINDS.items()}
    if inc is not None:
        st["stitch_z_travel"] = inc
    s = ctx.stream()
    ctx.module("GenericWriter").write(p, s, st)
    verify(ctx, s, [o[0] for o in ops], [(t[0], t[1]) for t in p.stitches], set(KINDS), st, ["z"], decimals=1,
           absent=("(P", ")P", "(D", ")D", "(C", ")C", "(B", ")B", "+B", "+C"), inc=10 if inc is None else inc)


def selected(ctx, k):
    """a template chosen by a value: {None: (key template, default), key: template}"""
    ops = design(ctx, "SJ", k, 50)
    p, back = commands(ctx, ops)
    pick = ctx.choose("pick", [0, 1, 7])
    st = dict(stitch={None: ("{index}", "d {x} {y}\n"), str(pick): "k {x} {y}\n"}, jump={None: ("{cmd_str}", "no\n"), "JUMP": "j {x} {y}\n"})
    s = ctx.stream()
    ctx.module("GenericWriter").write(p, s, st)
    conds = []
    got = lines(ctx, s)
    if len(got) != k:
        ctx.fail("generic: %d lines" % len(got))
    for i, (g, o) in enumerate(zip(got, ops)):
        text = "".join(x for x in g if isinstance(x, str)).strip()
        if text != ("j" if o[0] == "J" else "k" if i == pick else "d"):
            ctx.fail("generic: template %r for %s at %d" % (text, o[0], i))
        conds.append(ctx.eq([x[0] for x in g if not isinstance(x, str)], [o[1], o[2]]))
    ctx.check(ctx.all(conds), "generic: chosen template")
    ctx.cover("end")


def header(ctx, k, more=""):
    """statistics, metadata and threads before the design"""
    pe = ctx.pe
    ops = design(ctx, "SJTCX" + more, k, 300, first="S")
    p, back = commands(ctx, ops)
    n = ctx.choose("threads", [0, 1, 3])
    p.threadlist = []
    cols = []
    for i in range(n):
        t = pe.EmbThread()
        t.color = ctx.int("col%d" % i, 0, 0xFFFFFF)
        t.description, t.catalog_number, t.brand, t.chart, t.weight = "d%d" % i, "n%d" % i, "b", "c", "w"
        p.add_thread(t)
        cols.append(t.color)
    p.metadata("name", "abc")
    p.metadata("author", "xyz")
    cs = ["stitch", "jump", "trim", "color_change", "stop", "end", "color_break", "sequence_break", "stitch_break", "needle_at", "sequin_eject", "sequin_mode", "slow", "fast", "needle_set"]
    st = dict(pattern_start="T {stitch_total} {thread_total} {extents_left} {extends_top} {extends_right} {extends_bottom} {extends_width} {extends_height} "
              + " ".join("{%s_count}" % c for c in cs) + "\n",
              metadata_entry="m{metadata_index}|{metadata_key}={metadata_value}\n", stitch="s\n",
              thread_entry="t{thread_index}|{thread_red} {thread_green} {thread_blue} {thread_description},{thread_catalog_number},{thread_brand},{thread_chart},{thread_weight}\n")
    s = ctx.stream()
    ctx.module("GenericWriter").write(p, s, st)
    got = lines(ctx, s)
    if len(got) != 3 + n + sum(o[0] == "S" for o in ops):
        ctx.fail("generic header: %d lines" % len(got))
    num = [x[0] for x in got[0] if not isinstance(x, str)]
    pos = [(t[0], t[1]) for t in p.stitches]
    num_c = [sum(o[0] == c for o in ops) for c in "SJTCXDBQKAEMLFN"]
    conds = [ctx.eq(num[8:], num_c), num[0] == len(ops), num[1] == n]
    # the extents are those of the pattern (C27 and C21 decide bounds() itself)
    for c, lo, hi in ((0, 2, 4), (1, 3, 5)):
        vs = [q[c] for q in pos]
        conds += [ctx.all([num[lo] <= v for v in vs]), ctx.any([num[lo] == v for v in vs]), ctx.all([num[hi] >= v for v in vs]), ctx.any([num[hi] == v for v in vs]),
                  num[6 + c] == num[hi] - num[lo]]
    text = lambda g: "".join(x if isinstance(x, str) else "#" for x in g)
    for i, (a, b) in enumerate((("name", "abc"), ("author", "xyz"))):
        if text(got[1 + i]) != "m#|%s=%s" % (a, b) or got[1 + i][1][0] != i:
            ctx.fail("generic header: metadata %r" % text(got[1 + i]))
    for i in range(n):
        g = got[3 + i]
        if text(g) != "t#|# # # d#,n#,b,c,w":
            ctx.fail("generic header: thread %r" % text(g))
        v = [x[0] for x in g if not isinstance(x, str)]
        conds.append(ctx.eq([v[0], v[1] * 65536 + v[2] * 256 + v[3], v[4], v[5]], [i, cols[i], i, i]))
    ctx.check(ctx.all(conds), "generic header: statistics or thread")
    ctx.cover("end")


def ends_of_block(ctx, k):
    """the first and last stitch of a block have templates of their own"""
    ops = design(ctx, "STC", k, 50)
    p, back = commands(ctx, ops)
    st = dict(stitch="s\n", stitch_first="f\n", stitch_last="l\n", trim="t\n", color_change="c\n")
    s = ctx.stream()
    ctx.module("GenericWriter").write(p, s, st)
    got = "".join("".join(g) for g in lines(ctx, s))
    want, run = "", 0
    cmds = [o[0] for o in ops]
    for i, c in enumerate(cmds):
        if c == "S":
            first = i == 0 or cmds[i - 1] != "S"
            last = i == len(cmds) - 1 or cmds[i + 1] != "S"
            want += "f" if first else "l" if last else "s"
        else:
            want += c.lower()
    ctx.check(got == want, "generic: first and last stitch templates", known=[("generic-first-last", got == want.replace("f", "s").replace("l", "s"))])
    ctx.cover("end")


def nothing(ctx, k):
    """without templates nothing is written"""
    p, _ = commands(ctx, design(ctx, "STCD", k, 50))
    s = ctx.stream()
    ctx.module("GenericWriter").write(p, s)
    if lines(ctx, s):
        ctx.fail("generic: text without templates")
    ctx.cover("end")


def harnesses(tier):
    T = tier == "thorough"
    H = []
    n = 6 if T else 5

    def add(name, fn, params, **kw):
        H.append(Harness(name, fn, params, covers=["end"], **kw))
    for f in "STCXJD":
        add("structure-" + f, structure, dict(k=n, alphabet="STCXJD", first=f, fields=["x", "y"]), weight=3)
    for f in "SNEM":
        add("structure-rare-" + f, structure, dict(k=3 if not T else 4, alphabet="SNEMFLCD", first=f, fields=["x", "y"]), weight=2)
    for f in "ST":
        add("structure-drop-" + f, structure, dict(k=4 if not T else 5, alphabet="STCJD", first=f, drop="STCJD", fields=["x", "y"]), weight=2)
    add("positions", structure, dict(k=3 if not T else 4, alphabet="SJ", fields=POS))
    for i, fs in enumerate((["x", "y"], ["dx", "_y"], ["last_x", "_last_y"])):
        add("positions-half%d" % i, structure, dict(k=2, alphabet="S", half=True, fields=fs, R=30 if not T else 300))
    add("positions-int", structure, dict(k=2 if not T else 3, alphabet="S", half=False, fields=["x", "y", "ix", "iy", "idx", "idy", "_ix", "_iy", "_idx", "_idy"]))
    for f in "STCJ":
        add("encoded-" + f, structure, dict(k=3 if not T else 4, alphabet="STCXJ", first=f, how="encoded", fields=["x", "y"], R=100), weight=2)
    for f in "STCJD":
        add("default-" + f, default, dict(k=3 if not T else 4, alphabet="STCXJDN", first=f))
    add("travel", travel, dict(k=4))
    add("selected", selected, dict(k=3))
    add("header", header, dict(k=3 if not T else 4))
    add("header-rare", header, dict(k=2, more="DBQKAEMLFN"))
    for a in "xy":
        add("positions-int-half-" + a, structure, dict(k=2 if not T else 3, alphabet="S", half=a, fields=[a] + [q % a for q in ("i%s", "id%s", "_i%s", "_id%s")], R=30))
    add("nothing", nothing, dict(k=2))
    add("ends", ends_of_block, dict(k=4 if not T else 6))
    return H
