"""C01-C05, C15, C17: the set algebra (Algebra.tla replayed, AlgebraTrace.tla validating recordings)."""
import tamper

CFG = """SPECIFICATION Spec
CONSTANTS
  N = {n}
  Ops = {{{ops}}}
  EmitOn = TRUE
INVARIANTS Exact Shape Closed EmptyExact ComplementExact Idempotent
PROPERTIES Typed WireExact
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
TRACE_CFG = """SPECIFICATION Spec
CONSTANTS
  N = {n}
  Cats = {{{cats}}}
  TraceFile = "{file}"
  Light = {light}
INVARIANTS Accepted ModelSane
CHECK_DEADLOCK FALSE
"""


def quoted(xs):
    return ", ".join(f'"{x}"' for x in xs)


def graph(c, ops, n=3):
    cfg = CFG.format(n=n, ops=quoted(ops))
    return c.tlc("Algebra", cfg, f"complete state graph, {n} points, calls {'/'.join(ops)}", timeout=3000)


def both(c):
    return [("dev", c.build()), ("release", c.build(release=True))]


def replay(c, binary, rows, n=3, profile="dev"):
    d = c.harness(binary, ["algebra", "--rows", rows, "--prop", c.prop, "--n", n],
                  label=f"every transition replayed on the real types, {profile} profile", timeout=3000)
    c.traces += d["cases"]


def histories(c, binary, cats, focus, n, chunks, length, tight=0, light=False):
    f = c.path(f"trace-{n}.ndjson")
    c.harness(binary, ["record", "--trace", f, "--n", n, "--chunks", chunks, "--len", length, "--focus", focus,
                         "--tight", tight, "--hang", 120 if light else 30],
              label=f"recorded {chunks} histories of {length} calls over {n} points")
    c.validate("AlgebraTrace", TRACE_CFG.format(n=n, cats=quoted(cats), file=f,
                                                        light="TRUE" if light else "FALSE"),
               f"recorded histories over {n} points validated{', meaning only' if light else ''}", f, timeout=1500,
               lies=tamper.algebra(cats, light))


def trace_suite(c, bins, cats, focus):
    if c.thorough:
        plan = [(4, 1500, 60), (8, 2000, 80), (16, 2000, 80), (24, 1200, 80), (40, 500, 80), (100, 150, 80)]
    else:
        plan = [(6, 200, 50), (16, 300, 60), (30, 80, 60), (64, 32, 50)]
    for i, (n, k, l) in enumerate(plan):
        histories(c, bins[i % len(bins)][1], cats, focus, n, k, l)


def large(c, binary, cats, focus, tight=0):
    """Random operands of hundreds of pieces; TLC tracks what they mean."""
    for n, k, l in [(400, 200, 60), (1000, 60, 60), (2000, 16, 40)] if c.thorough else [(400, 24, 50), (1000, 16, 25)]:
        histories(c, binary, cats, focus, n, k, l, tight, light=True)


def many_pieces(c, bins):
    if c.prop not in ("C01", "C02", "C03", "C04", "C05", "C17"):
        return
    import misc
    n = {"C03": 60}.get(c.prop, 250) * (2 if c.thorough else 1)
    only = "complement" if c.prop == "C03" else "all"
    misc.scale(c, bins, [("dev", n, only, 1), ("release", 2 * n, only, 1)])


def check(ops, cats, focus=""):
    def run(c):
        bins = both(c)
        rows = graph(c, ops)
        for name, b in bins:
            replay(c, b, rows, profile=name)
        trace_suite(c, bins, cats, focus)
        if cats != ["type"]:
            large(c, bins[1][1], cats, focus)
        many_pieces(c, bins)
        if c.thorough and c.prop in ("C01", "C02", "C03", "C04"):
            c.prove("SetProof", "TLAPS: meets, merging of any number of pieces, tails, complements, at any positions")
    return run


LAWS = """SPECIFICATION Spec
CONSTANTS
  N = {n}
  EmitOn = TRUE
INVARIANTS UnionAssociative UnionCommutative InterAssociative InterCommutative UnionIdempotent InterIdempotent
INVARIANTS DeMorgan Distributive
CHECK_DEADLOCK FALSE
"""


def c05(c):
    check(["union", "intersection"], ["eq"], "union")(c)
    # three operands: the laws on the specification, then on the real sets
    n = 2 if c.thorough else 1
    rows = c.tlc("Laws", LAWS.format(n=n), f"laws for all triples of values over {n} points", timeout=3000)
    bins = both(c)
    d = c.harness(bins[0][1], ["laws", "--rows", rows, "--n", n, "--samples", 3000000],
                  label=f"the laws on all triples of real values over {n} points", timeout=3000)
    c.traces += d["cases"]
    rows = graph(c, ["to_set"], 3)
    d = c.harness(bins[1][1], ["laws", "--rows", rows, "--n", 3, "--samples", 20000000 if c.thorough else 400000],
                  label="the laws on random triples of real values over 3 points, release profile", timeout=3000)
    c.traces += d["cases"]


def c14(c):
    bins = both(c)
    b = bins[0][1]
    # every value through the wire, and every operation on reloaded operands
    small, big = (3, 4) if c.thorough else (2, 3)
    rows = graph(c, ["reload", "union", "intersection", "complement", "to_inner", "to_set"], small)
    replay(c, b, rows, small)
    replay(c, bins[1][1], rows, small, "release")
    rows = graph(c, ["reload"], big)
    replay(c, b, rows, big)
    import misc
    rows = c.tlc("Bounds", misc.BOUNDS.format(n=6, order="chain"), "bounds, through the wire and back")
    d = c.harness(b, ["bounds-reload", "--rows", rows, "--n", 6],
                  label="every bound through four formats, Copy, owned and float elements")
    c.traces += d["cases"]
    trace_suite(c, bins, ["serde"], "reload")
    large(c, bins[1][1], ["serde"], "reload")


def c15(c):
    check(ALL, ["type"])(c)
    rows = graph(c, ["to_set"], 2)
    d = c.harness(c.build(), ["traits", "--rows", rows],
                  label="iterable, double-ended and exact-size types as the compiler sees them")
    c.traces += d["cases"]


ALL = ["union", "intersection", "complement", "to_inner", "to_set"]
TABLE = {
    "C01": check(["intersection"], ["intersection"], "intersection"),
    "C02": check(["union"], ["union"], "union"),
    "C03": check(["complement", "union"], ["complement"], "complement"),
    "C04": check(["intersection"], ["empty"], "disjoint"),
    "C05": c05,
    "C14": c14,
    "C15": c15,
    "C17": check(["to_inner", "to_set"], ["build"], "to_set"),
}
