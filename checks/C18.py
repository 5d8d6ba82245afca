from .common import *
from .C17 import record_harnesses, threads, order, metadata

BOUNDS = ("two records with symbolic integer, half-unit or quarter-unit coordinates in [-2000,2000]; the command any of the 41 named ones with every combination of thread/needle/order "
          "indices 0..254 or absent, any code 0..255 with none or all of them, or NO_COMMAND; a thread of any 24-bit colour with one attribute any text of 1..2 (thorough 4) characters "
          "from newline and printable ASCII or a fixed non-ASCII sample, the others fixed or absent; a metadata text of 1..3 (thorough 4) such characters; up to 3 threads in order.")
OUTSIDE = "metadata that is neither text nor number (dropped by design); the json module itself (trusted)."
DEADLINE = 60


def trip(ctx, p, st=None):
    f = ctx.stream(text=True)
    ctx.pe.write_json(p, f)
    q = ctx.pe.EmbPattern()
    ctx.module("JsonReader").read(ctx.text_of(f), q)
    return q


def numbers(ctx):
    pe = ctx.pe
    p = pe.EmbPattern()
    p.metadata("a", ctx.int("a", -2000, 2000))
    p.metadata("b", ctx.half("b", -50, 50, 4))
    p.metadata("c", ctx.choose("c", [0.1234567890123, 123456789.125, 1e-9, 10 ** 12, -0.5]))
    q = trip(ctx, p)
    ctx.check(ctx.eq(q.extras, p.extras), "number metadata changed")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    return record_harnesses(trip, None) + [
            Harness("threads", lambda ctx: threads(ctx, trip, ATTRS, 2), {}, ("end",)),
            Harness("threads3", lambda ctx: threads(ctx, trip, ATTRS[:1], 4 if t else 3), {}, ("end",)),
            Harness("order", lambda ctx: order(ctx, trip), {}, ("end",)), Harness("metadata", lambda ctx: metadata(ctx, trip, 4 if t else 3), {}, ("end",)),
            Harness("numbers", numbers, {}, ("end",))]
