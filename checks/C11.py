from .common import *

BOUNDS = ("designs of up to 2 (thorough 3) commands with every code 0..255 in each place (the whole vocabulary and every code outside it, with and without thread, needle, "
          "order or alternative bits) followed by a stitch, up to 4 (thorough 5) over the state-changing commands, with and without an end command; symbolic "
          "coordinates; settings: sequin contingencies, explicit trim, speeds, full jump, needle/colour/stop changes, length limits 8 or none.")
OUTSIDE = "longer designs; tie settings (C30)."
DEADLINE = 110
HI = [0, 0x100, 0x0300, 0x01010100]


def core(pe):
    return {pe.STITCH, pe.JUMP, pe.TRIM, pe.STOP, pe.END, pe.SLOW, pe.FAST, pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.SEQUIN_MODE, pe.SEQUIN_EJECT}


def wellformed(ctx, e, st=()):
    pe = ctx.pe
    ok = core(pe)
    mode = False
    trimmable = False
    for i, s in enumerate(e):
        c = s[2] & MASK
        if not isinstance(c, int):
            c = c.concrete()
        if c not in ok:
            ctx.fail("encoded design holds command %d" % c)
        if (c == pe.END) != (i == len(e) - 1):
            ctx.fail("end command not exactly at the end")
        if c == pe.SEQUIN_MODE:
            mode = not mode
        elif c == pe.SEQUIN_EJECT:
            if not mode:
                ctx.fail("sequin ejected outside sequin mode")
            trimmable = True
        elif c == pe.STITCH:
            trimmable = True
        elif c in (pe.JUMP, pe.TRIM) and mode:
            ctx.fail("trim or jump in sequin mode")
        elif c == pe.NEEDLE_SET and dict(st).get("thread_change_command") != pe.NEEDLE_SET:
            ctx.fail("needle change not asked for")
        elif c in (pe.SLOW, pe.FAST) and dict(st).get("writes_speeds") is False:
            ctx.fail("speed change not supported")
        if c == pe.TRIM and not trimmable:
            ctx.fail("trim without a penetration to trim")
        if c in (pe.TRIM, pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.STOP):
            trimmable = False
    if not e:
        ctx.fail("no end command")
    ctx.check(ctx.all([s[0] == s[0] for s in e] + [True]), "coordinates")


def settings(ctx, which):
    pe = ctx.pe
    if which == "utilize":
        return {"sequin_contingency": pe.CONTINGENCY_SEQUIN_UTILIZE, "explicit_trim": ctx.choose("explicit", [False, True])}
    if which == "remove":
        return {"sequin_contingency": pe.CONTINGENCY_SEQUIN_REMOVE}
    if which == "stitch":
        return {"sequin_contingency": pe.CONTINGENCY_SEQUIN_STITCH, "writes_speeds": False}
    if which == "needle":
        return {"thread_change_command": pe.NEEDLE_SET, "explicit_trim": True, "needle_count": 3}
    if which == "stop":
        return {"thread_change_command": pe.STOP}
    if which == "limits":
        return {"max_stitch": 8, "max_jump": 8, "sequin_contingency": pe.CONTINGENCY_SEQUIN_UTILIZE, "full_jump": ctx.choose("full", [False, True])}
    return {}


def vocabulary(ctx, k, which, hi=(0,), end=(True,), tail=True, R=20):
    pe = ctx.pe
    p = pe.EmbPattern()
    for i in range(k):
        c = ctx.int("c%d" % i, 0, 255)
        h = ctx.choose("h%d" % i, hi)
        # amounts of translations, scales and limits are plain numbers, positions are free
        if which == "limits":
            x, y = ctx.choose("xy%d" % i, [(3, 2), (-17, 9)])
        else:
            x, y = 3 + i, 2 - i
        p.add_stitch_absolute(c | h if h else c, x, y)
    if tail:
        p.add_stitch_absolute(pe.STITCH, ctx.int("x", -R, R), 5)
    if ctx.choose("end", end):
        p.add_stitch_absolute(pe.END, 5, 5)
    st = settings(ctx, which)
    e = p.get_normalized_pattern(dict(st)).stitches
    ctx.observe([s[2] for s in e])
    wellformed(ctx, e, st)
    ctx.cover("end")


def states(ctx, k, alphabet, which, R=12, end=(True,)):
    """the state-changing commands"""
    pe = ctx.pe
    U = dict(u=pe.CONTINGENCY_SEQUIN_UTILIZE, j=pe.CONTINGENCY_SEQUIN_JUMP, s=pe.CONTINGENCY_SEQUIN_STITCH, r=pe.CONTINGENCY_SEQUIN_REMOVE,
             e=pe.OPTION_EXPLICIT_TRIM, i=pe.OPTION_IMPLICIT_TRIM, w=pe.CONTINGENCY_LONG_STITCH_SEW_TO, n=pe.CONTINGENCY_LONG_STITCH_NONE,
             c=pe.SET_CHANGE_SEQUENCE)
    cmd = dict(S=pe.STITCH, J=pe.JUMP, T=pe.TRIM, C=pe.COLOR_CHANGE, X=pe.STOP, B=pe.COLOR_BREAK, Q=pe.SEQUENCE_BREAK,
               E=pe.SEQUIN_EJECT, F=pe.FAST, L=pe.SLOW, A=pe.NEEDLE_AT, W=pe.SEW_TO, K=pe.STITCH_BREAK, R=pe.FRAME_EJECT, M=pe.SEQUIN_MODE, D=pe.END)
    cmd.update(U)
    p = pe.EmbPattern()
    for i in range(k):
        c = ctx.choose("c%d" % i, alphabet)
        if c in MOVING and R:
            x, y = ctx.int("x%d" % i, -R, R), 2 + i
        else:
            x, y = 3 * i, 2 + i
        p.add_stitch_absolute(cmd[c], x, y)
    if ctx.choose("end", end):
        p.add_stitch_absolute(pe.END, 5, 5)
    st = settings(ctx, which)
    e = p.get_normalized_pattern(dict(st)).stitches
    ctx.observe([s[2] for s in e])
    wellformed(ctx, e, st)
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for w in ("default", "utilize", "remove", "stitch", "needle", "stop", "limits"):
        hs.append(Harness("any1-" + w, vocabulary, dict(k=1, which=w, hi=HI, end=(True, False)), ["end"], weight=1))
    for w in ("utilize", "needle") + (("default", "stop", "limits") if t else ()):
        hs.append(Harness("any2-" + w, vocabulary, dict(k=2, which=w), ["end"], weight=4))
    if t:
        hs.append(Harness("any3", vocabulary, dict(k=3, which="utilize"), ["end"], weight=30))
    hs.append(Harness("sequins", states, dict(k=4, alphabet="SJTCXEM", which="utilize", R=0), ["end"], weight=4))
    hs.append(Harness("switching", states, dict(k=4, alphabet="SJTEMujr", which="default", R=0), ["end"], weight=4))
    hs.append(Harness("switching-s", states, dict(k=4, alphabet="STEusJ", which="default", R=0), ["end"], weight=3))
    hs.append(Harness("breaks", states, dict(k=4, alphabet="SJTCBQRK", which="needle", R=0, end=(True, False)), ["end"], weight=4))
    hs.append(Harness("far", states, dict(k=3, alphabet="SJTEMWAR", which="limits", R=12), ["end"], weight=6))
    hs.append(Harness("options", states, dict(k=4, alphabet="STCeiwD", which="stop", R=0), ["end"], weight=4))
    if t:
        hs.append(Harness("sequins5", states, dict(k=5, alphabet="SJTCXEM", which="utilize", R=0), ["end"], weight=9))
        hs.append(Harness("switching5", states, dict(k=5, alphabet="STEMujsr", which="default", R=0), ["end"], weight=9))
    return hs
