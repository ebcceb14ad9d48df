"""C10 conversions (Conv.tla, ConvTrace.tla), C11 indexing (Index.tla, IndexTrace.tla), C13 bounds (Bounds.tla)."""
import tamper
from iters import both

CONV = """SPECIFICATION Spec
CONSTANTS
  M = {m}
  Below = {below}
  Above = {above}
  EmitOn = TRUE
INVARIANTS Kept InType
PROPERTY PanicExact
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def c10(c):
    bins = both(c)
    m = 6 if c.thorough else 5
    plan = [(m, 0, 2, "0 is T::MIN"), (m, 2, 0, "M is T::MAX"), (m, 2, 2, "room on both sides"),
            (6, 0, 0, "T has 7 values"), (1, 0, 0, "T has 2 values")]
    for m, below, above, what in plan:
        rows = c.tlc("Conv", CONV.format(m=m, below=below, above=above),
                     f"every range over {m + 1} endpoints and every chain of conversions, {what}")
        for name, b in bins:
            d = c.harness(b, ["conv", "--rows", rows, "--m", m, "--below", below, "--above", above],
                          label=f"every conversion and chain of conversions on the real ranges, {what}, {name} profile")
            c.traces += d["cases"]


    chunks, length = (120, 150) if c.thorough else (15, 100)
    for name, b in bins:
        f = c.path(f"conv-{name}.ndjson")
        c.harness(b, ["conv-record", "--trace", f, "--chunks", chunks, "--len", length],
                  label=f"recorded chains of conversions of wide ranges of every built-in type, {name} profile")
        c.validate("ConvTrace", TRACE.format(file=f), f"recorded conversions validated ({name})", f, timeout=1500,
                   lies=tamper.conv)


TRACE = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "{file}"
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
"""
INDEX = """SPECIFICATION Spec
CONSTANTS
  MaxLen = {n}
  EmitOn = TRUE
PROPERTIES Exact Touched Accepts
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def c11(c):
    bins = both(c)
    n = 9 if c.thorough else 7
    rows = c.tlc("Index", INDEX.format(n=n),
                 f"every range over every container of at most {n} elements or bytes, every way of cutting characters")
    for name, b in bins:
        d = c.harness(b, ["index", "--rows", rows, "--maxlen", n],
                      label=f"every read and write on the real containers, {name} profile")
        c.traces += d["cases"]
    chunks, length = (1400, 80) if c.thorough else (140, 60)
    for name, b in bins:
        f = c.path(f"index-{name}.ndjson")
        c.harness(b, ["index-record", "--trace", f, "--chunks", chunks, "--len", length],
                  label=f"recorded reads and writes in large containers, {name} profile")
        c.validate("IndexTrace", TRACE.format(file=f).replace("Accepted", "Accepted ModelSane"),
                   f"recorded indexing validated ({name})", f, timeout=1500, lies=tamper.index)


BOUNDS = """SPECIFICATION Spec
CONSTANTS
  N = {n}
  Order = "{order}"
  EmitOn = TRUE
INVARIANTS ByAdmission Incomparable Antisymmetric EqMeansEq Transitive FlipInvolution
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def c13(c):
    bins = both(c)
    sizes = {"chain": 24 if c.thorough else 12, "float": 6, "pairs": 12}
    for order, n in sizes.items():
        rows = c.tlc("Bounds", BOUNDS.format(n=n, order=order), f"all bounds over {n} elements, order: {order}")
        for name, b in bins:
            d = c.harness(b, ["bounds", "--rows", rows, "--order", order, "--n", n],
                          label=f"every comparison and rewriting on the real bounds, order: {order}, {name} profile")
            c.traces += d["cases"]


SCALE = """SPECIFICATION Spec
CONSTANTS
  N = {top}
  NS = {{{ns}}}
  EmitOn = TRUE
INVARIANTS Exact Shape EmptyExact OrderFree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def scale_rows(c):
    """The families of Scale.tla; their results as functions of the number of pieces."""
    ns = [5, 6, 7, 8, 9, 10, 12, 15] if c.thorough else [5, 6, 7, 8, 9]
    return c.tlc("Scale", SCALE.format(top=4 * max(ns) + 16, ns=", ".join(map(str, ns))),
                 f"growing families of sets, {min(ns)} to {max(ns)} pieces")


def scale(c, bins, plan):
    """plan: (profile, n, only, some)"""
    rows = scale_rows(c)
    bins = dict(bins)
    # how deep the code may recurse is a matter of C16 alone
    stack = (128 << 10) if c.prop == "C16" else (256 << 20)
    for profile, n, only, some in plan:
        d = c.harness(bins[profile], ["scale", "--rows", rows, "--prop", c.prop, "--n", n, "--only", only,
                                      "--some", some, "--stack", stack, "--hang", 120],
                      label=f"the specification's families at n = {n} ({only}), {profile} profile, {stack >> 10} KB stacks",
                      timeout=3000)
        c.traces += d["cases"]


def c16(c):
    import algebra
    bins = both(c)
    if c.thorough:
        plan = [("dev", 500, "rest", 1), ("dev", 200, "complement", 1), ("dev", 3000, "folds", 1),
                ("dev", 8000, "cover", 1), ("release", 10000, "cover", 1),
                ("release", 1500, "rest", 1), ("release", 600, "complement", 1), ("release", 8000, "folds", 1),
                ("dev", 6, "endure", 5000), ("release", 6, "endure", 50000)]
    else:
        plan = [("dev", 200, "rest", 1), ("dev", 80, "complement", 1), ("dev", 1000, "folds", 1),
                ("dev", 3000, "cover", 1), ("release", 5000, "cover", 1),
                ("release", 1000, "rest", 3), ("release", 300, "complement", 1), ("release", 3000, "folds", 1),
                ("release", 5, "endure", 2000)]
    scale(c, bins, plan)
    b = bins[0][1]
    n = 3 if c.thorough else 2
    algebra.replay(c, b, algebra.graph(c, algebra.ALL, n), n)
    for n, k, l in [(5, 1500, 80), (60, 300, 80), (120, 100, 80)] if c.thorough else [(5, 200, 60), (60, 60, 60)]:
        algebra.histories(c, b, ["total"], "", n, k, l)
    algebra.large(c, bins[1][1], ["total"], "")


TABLE = {"C16": c16, "C10": c10, "C11": c11, "C13": c13}
