"""Falsified recordings: every way of misreporting one event that the specification must reject.

A check that accepts whatever it is given decides nothing, so each validation is followed by one in which
TLC has to reject every history: copies of the accepted ones, cut after an event whose observation was
changed.  (Invariant Rejected of the trace modules.)"""
import random

CALLS = {"make", "union", "intersection", "complement", "to_inner", "to_set", "reload"}
OP = {"union": ["union"], "intersection": ["intersection"], "complement": ["complement"],
      "build": ["make", "to_inner", "to_set"], "serde": ["reload"]}


def bump(x):
    """A number in limbs, or none, replaced by another one."""
    if not isinstance(x, list):
        return x + 1
    return [0, 0, 0, 0, 0, 0] if x == [] else [x[0] + 1 if x[0] < 9 else x[0] - 1] + x[1:]


def algebra(cats, light):
    def lies(ch, e):
        out = []
        call = e["op"] in CALLS and e["ok"] == 1
        for cat in cats:
            if cat in OP and call and e["op"] in OP[cat]:
                has = list(e["has"])
                more = [p for p in ch["probed"] if p not in has]
                if has:
                    out.append({"has": has[:-1]})
                if more:
                    out.append({"has": sorted(has + more[:1])})
                out.append({"ok": 0})
            if cat == "empty":
                out.append({"empty": 1 - e["empty"]} if call else {"res": 1 - e["res"]} if "res" in e else None)
            if cat == "eq" and call:
                out += [{"law": 0}, {"hd": [e["dst"]]}]
            if cat == "total" and call:
                out += [{"ok": 0}, {"it": 0}]
            if cat == "type" and call and not light:
                out.append({"kind": (e["kind"] + 1) % 15})
            li = e.get("list", {"on": 0})
            if call and li["on"] == 1:
                low = e["kind"] in (7, 12)
                short = {**li, "fwd": li["fwd"][:-1]}
                if cat == "lower" and low and li["fwd"]:
                    out.append({"list": short})
                if cat == "fwd" and not low and li["fwd"]:
                    out.append({"list": short})
                if cat == "ends" and not low and li["fwd"]:
                    out += [{"list": {**li, "back": li["back"][1:]}}, {"list": {**li, "both": li["both"][1:]}}]
                if cat == "size" and not low:
                    out += [{"list": {**li, "size": li["size"] + 1}}, {"list": {**li, "last": li["last"] + 1}}]
        return [x for x in out if x]
    return lies


def bigiter(cats):
    def lies(ch, e):
        make = ch["ev"][0]
        lower = make["lower"] == 1
        if e["op"] == "make":
            return []
        if e["op"] in ("size", "len", "count", "last", "max") or (e["op"] == "min" and not lower):
            cat = "size"
        else:
            cat = "lower" if lower else "next" if e["op"] == "next" else "ends"
        if cat not in cats or e["ok"] != 1:
            return []
        return [{"ok": 0}, {"hi": bump(e["hi"])} if e["op"] == "size" else {"res": bump(e["res"])}]
    return lies


def steps(ch, e):
    if e["ok"] != 1 or e["op"] in ("forward", "backward"):
        return []
    if "row" in e["op"] or "page" in e["op"]:
        return [{"res": e["res"][:-1] + [e["res"][-1] + 1]}, {"ok": 0}]
    return [{"res": bump(e["res"])}, {"ok": 0}]


def conv(ch, e):
    if e["op"] != "conv":
        return []
    out = [{"ok": 1 - e["ok"]}]
    for kinds, k in ((("RangeFrom", "LowerBoundedRange"), 2), (("RangeTo", "RangeToInclusive", "UpperBoundedRange"), 4)):
        if e["ok"] == 1 and e["r"][0] in kinds:
            out.append({"r": e["r"][:k] + [bump(e["r"][k])] + e["r"][k + 1:]})
    return out


def index(ch, e):
    out = []
    if e["ok"] == 1:
        out += [{"ok": 0}, {"got": [e["got"][0], e["got"][1] + 1]}]
        if e["got"][1]:
            out.append({"got": [e["got"][0] + 1, e["got"][1]]})
    if e["op"] == "write":
        a, b, n = e["touched"]
        out.append({"touched": [a, b, n + 1]})
    return out


def falsify(chunks, lies, seed, most=120):
    """Up to `most` falsified histories, spread over the recording."""
    rng = random.Random(seed)
    out = []
    for _ in range(20 * most):
        if len(out) == most:
            break
        ch = rng.choice(chunks)
        i = rng.randrange(len(ch["ev"]))
        if i > 60:
            continue
        ls = lies(ch, ch["ev"][i])
        if ls:
            t = dict(ch)
            t["ev"] = ch["ev"][:i] + [{**ch["ev"][i], **rng.choice(ls)}]
            out.append(t)
    return out
