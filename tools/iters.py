"""C06-C09 iterators (Iter.tla / LowerIter.tla walked in product with the code, BigIterTrace.tla), C12 Step."""
import tamper

ITER = """SPECIFICATION Spec
CONSTANTS
  N = {n}
  Below = {below}
  TMax = {tmax}
  EmitOn = TRUE
INVARIANTS {inv}
PROPERTIES {props}
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
BIG = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "{file}"
  Cats = {{{cats}}}
INVARIANTS Accepted ModelSane
CHECK_DEADLOCK FALSE
"""
STEP = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "{file}"
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
"""


def both(c):
    return [("dev", c.build()), ("release", c.build(release=True))]


def bounded_walk(c, bins):
    if c.thorough:
        c.prove("IterProof", "TLAPS: next, next_back, nth, nth_back interleaved in any way over a type of any size")
    n = 6 if c.thorough else 5
    inv, props = "Refines SizeExact LastExact MinMax EmitObs", "Results Fused Shrinks"
    # T with nothing outside the points, and T with room on either side
    rows = c.tlc("Iter", ITER.format(n=n, below=0, tmax=n - 1, inv=inv, props=props),
                 f"every bounded range and set over {n} consecutive values filling T", timeout=3000)
    c.tlc("Iter", ITER.format(n=n, below=2, tmax=n + 1, inv=inv, props=props),
          f"the same with room below and above in T", timeout=3000)
    for name, b in bins:
        d = c.harness(b, ["iter", "--rows", rows, "--prop", c.prop, "--n", n],
                      label=f"product of the real iterators with the automaton, {name} profile", timeout=3000)
        c.traces += d["cases"]


def lower_walk(c, bins):
    # n points, h values: T goes on above the points, or ends at the last of them
    for n, h in ((5, 8), (6, 6)) if c.thorough else ((4, 6), (4, 4)):
        rows = c.tlc("LowerIter", ITER.format(n=n, below=0, tmax=h - 1, inv="Refines Apart", props="Results"),
                     f"every lower-bounded range and set over {n} values, iterated up to T::MAX = {h - 1}", timeout=3000)
        for name, b in bins:
            d = c.harness(b, ["iter", "--rows", rows, "--prop", c.prop, "--n", n, "--horizon", h],
                          label=f"product of the real lower-bounded iterators with the automaton, {name} profile",
                          timeout=3000)
            c.traces += d["cases"]


def wide(c, bins, cats, lower=0):
    chunks, length = (700, 60) if c.thorough else (40, 50)
    c.tlc("BigNumCheck", "SPECIFICATION Spec\nINVARIANT Agrees\nCHECK_DEADLOCK FALSE\n", "limb arithmetic self-check")
    for name, b in bins:
        f = c.path(f"wide-{lower}-{name}.ndjson")
        c.harness(b, ["bigiter", "--trace", f, "--chunks", chunks, "--len", length, "--lower", lower],
                  label=f"recorded iterators over wide {'lower-bounded' if lower else 'bounded'} values, {name} profile")
        c.validate("BigIterTrace", BIG.format(file=f, cats=", ".join(f'"{x}"' for x in cats)),
                   f"recorded wide iterators validated ({name})", f, timeout=1500, lies=tamper.bigiter(cats))


def many_pieces(c, bins):
    import misc
    n = 2000 if c.thorough else 300
    misc.scale(c, bins, [("dev", n, "all", 1), ("release", 2 * n, "all", 1)])


def results(c, bins):
    """Iterate the result of every call in the state graph of Algebra.tla."""
    import algebra
    n = 3
    rows = algebra.graph(c, algebra.ALL, n)
    for name, b in bins:
        d = c.harness(b, ["iterate", "--rows", rows, "--prop", c.prop, "--n", n],
                      label=f"iterating what every operation returns, {name} profile", timeout=3000)
        c.traces += d["cases"]


def histories(c, bins, cat):
    """Random histories over neighbouring points: every intermediate value is iterated and TLC judges the listing."""
    import algebra
    plan = [(8, 600, 60), (24, 600, 60), (50, 150, 60)] if c.thorough else [(8, 60, 50), (24, 60, 50), (50, 18, 50)]
    for i, (n, k, l) in enumerate(plan):
        algebra.histories(c, bins[i % len(bins)][1], [cat], "union", n, k, l, tight=1)
    algebra.large(c, bins[1][1], [cat], "union", tight=1)


def c06(c):
    bins = both(c)
    bounded_walk(c, bins)
    wide(c, bins, ["next"])
    many_pieces(c, bins)
    results(c, bins)
    histories(c, bins, "fwd")


def c07(c):
    bins = both(c)
    bounded_walk(c, bins)
    wide(c, bins, ["next", "ends"])
    many_pieces(c, bins)
    results(c, bins)
    histories(c, bins, "ends")


def c08(c):
    bins = both(c)
    bounded_walk(c, bins)
    lower_walk(c, bins)
    wide(c, bins, ["size"])
    wide(c, bins, ["size"], lower=1)
    many_pieces(c, bins)
    results(c, bins)
    histories(c, bins, "size")


def c09(c):
    bins = both(c)
    lower_walk(c, bins)
    wide(c, bins, ["lower"], lower=1)
    many_pieces(c, bins)
    results(c, bins)
    histories(c, bins, "lower")


def c12(c):
    bins = both(c)
    chunks, length = (150, 150) if c.thorough else (40, 80)
    for name, b in bins:
        f = c.path(f"steps-{name}.ndjson")
        c.harness(b, ["steps", "--trace", f, "--chunks", chunks, "--len", length],
                  label=f"recorded Step calls of every built-in type, {name} profile")
        c.validate("StepTrace", STEP.format(file=f), f"recorded Step calls validated ({name})", f, timeout=1500,
                   lies=tamper.steps)


TABLE = {"C06": c06, "C07": c07, "C08": c08, "C09": c09, "C12": c12}
