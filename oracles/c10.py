"""random sequences of table operations (from_dict, update with and without compress, append, fill, delete, strip, rename, filter_types,
selection of rows and columns, concatenation, derived tables that are modified afterwards) against a reference table of records"""
import copy

from oracles.util import *
from hrosailing.core.data import Data

NAMES = ("a", "b", "c", "d", "long name")
OPS = ("update", "update", "update", "compress", "append", "delete col", "delete cols", "delete row", "delete rows", "strip rows", "strip cols",
       "strip all", "rename", "filter", "mask", "slice", "concat", "update data", "mismatch", "derived")


def val(rng, kind, p_none):
    if rng.random() < p_none:
        return None
    return num(rng, -50, 50) if kind == "f" else rng.choice(("x", "y", "zz", "12"))


def cases(rng, tier):
    for k in range(1500 if tier == "quick" else 15000):
        kinds = {n: rng.choice("ffs") for n in NAMES}
        p = pick(rng, 0, 0.3, 0.3, 0.7, 0.9)
        big = 60 if k % 100 == 0 else 4
        ops = []
        for _ in range(rng.randint(1, 8)):
            op = rng.choice(OPS)
            names = rng.sample(NAMES, rng.randint(0 if op in ("slice", "update") else 1, len(NAMES)))
            lens = rng.randint(0, big)
            cols = {n: [val(rng, kinds[n], p) for _ in range(lens if rng.random() < 0.7 else rng.randint(0, big))] for n in names}
            if op in ("compress", "append") or op == "update" and rng.random() < 0.2:
                cols = {n: val(rng, kinds[n], p) for n in names}
            elif op == "update" and rng.random() < 0.2 and names:
                cols[names[0]] = val(rng, kinds[names[0]], p)
            ops.append([op, cols, rng.randrange(1000), rng.choice(NAMES), rng.choice(NAMES)])
        first = {n: [val(rng, kinds[n], p) for _ in range(rng.randint(0, big))] for n in rng.sample(NAMES, rng.randint(0, 5))}
        yield {"first": first, "ops": ops}


class Ref:
    def __init__(self, cols=(), rows=()):
        self.cols, self.rows = list(cols), [dict(r) for r in rows]

    def kind(self, k):
        return next((type(r[k]) for r in self.rows if r[k] is not None), None)

    def add(self, d, compress=False):
        lists = {k: v if isinstance(v, list) else [v] for k, v in d.items()}
        n = len(self.rows)
        for k in lists:
            if k not in self.cols:
                self.cols.append(k)
                for r in self.rows:
                    r[k] = None
        start = n
        if compress and n and all(self.rows[-1][k] is None for k in lists):
            start = n - 1
        for i in range(max([len(v) for v in lists.values()], default=0)):
            if start + i == len(self.rows):
                self.rows.append({c: None for c in self.cols})
            for k, v in lists.items():
                if i < len(v):
                    self.rows[start + i][k] = v[i]

    def drop(self, k):
        self.cols.remove(k)
        for r in self.rows:
            del r[k]


def differs(d, ref):
    if list(d.keys()) != ref.cols:
        return f"columns {d.keys()} instead of {ref.cols}"
    if ref.cols and d.n_rows != len(ref.rows) or d.n_cols != len(ref.cols):
        return f"{d.n_rows} rows and {d.n_cols} columns instead of {len(ref.rows)} and {len(ref.cols)}"
    for k in ref.cols:
        e = [r[k] for r in ref.rows]
        if list(d[k]) != e or list(d.data[k]) != e:
            return f"column {k} is {d[k]} instead of {e}"
        if k not in d:
            return f"column {k} not contained"
    if not ref.cols:
        return None
    for what, it, e in (("rows()", d.rows(), ref.rows), ("iteration", iter(d), ref.rows),
                        ("rows as lists", d.rows(ref.cols[::-1], list), [[r[k] for k in ref.cols[::-1]] for r in ref.rows]),
                        ("rows as tuples", d.rows(return_type=tuple), [tuple(r[k] for k in ref.cols) for r in ref.rows])):
        g = list(it)
        if g != e:
            return f"{what} gives {g} instead of {e}"
    if ref.rows and (d[0] != ref.rows[0] or d[-1] != ref.rows[-1]):
        return "single rows differ"
    return None


def types(d, ref, after_fill):
    for k in ref.cols:
        t = ref.kind(k)
        if d.type(k) != t and (after_fill or t is not None):
            return f"type of {k} is {d.type(k)} instead of {t}"
    ks, vs = d.get_by_type(float)
    if not all(k in ks for k in ref.cols if ref.kind(k) is float) or [list(d[k]) for k in ks] != [list(v) for v in vs]:
        return f"get_by_type gives {ks}"
    return None


def run(case):
    d, ref = Data.from_dict(copy.deepcopy(case["first"])), Ref()
    ref.add(case["first"])
    log = [f"from_dict({case['first']})"]
    w = differs(d, ref) or types(d, ref, True)
    for op, cols, x, old, new in case["ops"]:
        if w:
            break
        fill = False
        kinds = {k: {type(x) for x in (v if isinstance(v, list) else [v]) if x is not None} for k, v in cols.items()}
        cols = {k: v for k, v in cols.items() if len(kinds[k] | ({ref.kind(k)} - {None} if k in ref.cols else set())) <= 1}
        arg = copy.deepcopy(cols)
        n = len(ref.rows)
        if not ref.cols:
            n = 0
            d, ref = Data(), Ref()
        if op in ("update", "append"):
            d.update(arg)
            ref.add(cols)
            fill = True
        elif op == "compress":
            d.update(Data.from_dict(arg) if x % 3 == 0 else arg, compress=True)
            ref.add(cols, True)
            fill = True
        elif op == "update data":
            o = Data.from_dict(arg)
            d.update(o)
            oref = Ref()
            oref.add(cols)
            ref.add({k: [r[k] for r in oref.rows] for k in oref.cols})
            w = differs(o, oref)
            fill = True
        elif op == "mismatch":
            k = next((k for k in ref.cols if ref.kind(k) is not None), None)
            if k is None:
                continue
            v = "text" if ref.kind(k) is float else 1.5
            mix = ["x", None, 1.5, None, 2.5, "y"] if x % 2 else [2.5, 1.5, "x"]
            if not raises(d.extend, k, [v]) or not raises(Data.from_dict, {"a": mix}):
                w = f"value {v!r} of another type accepted for column {k}"
        elif op.startswith("delete"):
            ks = [k for k in cols if k in ref.cols]
            if op == "delete col":
                if old not in ref.cols:
                    continue
                d.delete(old)
                ref.drop(old)
            elif op == "delete cols":
                d.delete(ks)
                for k in ks:
                    ref.drop(k)
            else:
                if not n:
                    continue
                ix = [x % n] if op == "delete row" else [(x * j * j + j) % n for j in range(x % 5)]
                d.delete(ix[0] if op == "delete row" else ix)
                ref.rows = [r for i, r in enumerate(ref.rows) if i not in ix]
        elif op.startswith("strip"):
            mode = op.split()[1]
            d.strip(mode)
            if mode != "rows":
                for k in list(ref.cols):
                    if all(r[k] is None for r in ref.rows):
                        ref.drop(k)
            if mode != "cols" and ref.cols:
                keep = [i for i, r in enumerate(ref.rows) if any(v is not None for v in r.values())]
                ref.rows = ref.rows[keep[0]:keep[-1] + 1] if keep else []
        elif op == "rename":
            if old not in ref.cols:
                continue
            if new in ref.cols and new != old:
                if not raises(d.rename, old, new):
                    w = f"renaming {old} to the existing {new} accepted"
            else:
                d.rename(old, new)
                if new != old:
                    ref.cols.append(new)
                    for r in ref.rows:
                        r[new] = r[old]
                    ref.drop(old)
        elif op == "filter":
            tl = pick_i(x, [float], [str], [float, str], [])
            if any(d.type(k) != ref.kind(k) for k in ref.cols):
                continue
            for k in list(ref.cols):
                if ref.kind(k) not in tl:
                    ref.drop(k)
            d.filter_types(tl)
        elif op in ("mask", "slice", "derived"):
            if op == "slice" or op == "derived" and x % 2:
                s = [k for k in cols]
                r2 = Ref([k for k in ref.cols if k in s], [{k: v for k, v in r.items() if k in s} for r in ref.rows])
                s = pick_i(x // 2, s, tuple(s), set(s))
                e = d[s] if s and x % 3 else d.get_slice(s)
            else:
                if not n:
                    continue
                m = [bool((x >> (j % 10)) & 1) for j in range(n)]
                r2 = Ref(ref.cols, [r for r, f in zip(ref.rows, m) if f])
                e = d[np.array(m) if x % 2 else m]
            w = differs(e, r2) or types(e, r2, False)
            if op == "derived" and r2.cols and not w:
                e.update({k: [r2.kind(k)(7) if r2.kind(k) else None] * 3 for k in r2.cols})
                if e.n_rows > 4:
                    e.delete([1, 2])
                w = differs(d, ref)
                if w:
                    w = "after modifying a table derived from it: " + w
                log.append(f"derived by {s if op == 'slice' or x % 2 else 'mask'}")
                continue
            d, ref = e, r2
        elif op == "concat":
            o = Data.from_dict(arg)
            oref = Ref()
            oref.add(cols)
            e = Data.concatenate([d, o])
            r2 = Ref(ref.cols, [])
            r2.add({k: [r[k] for r in ref.rows] for k in ref.cols})
            r2.add({k: [r[k] for r in oref.rows] for k in oref.cols})
            w = differs(d, ref) or differs(o, oref)
            d, ref, fill = e, r2, True
        log.append(f"{op} {cols if op not in ('rename', 'delete row', 'delete rows') else ''} {x} {old} {new}")
        w = w or differs(d, ref) or types(d, ref, fill)
    return bad(f"{' ; '.join(log)[-450:]}: {w}"[-600:]) if w else None


def pick_i(i, *xs):
    return xs[i % len(xs)]
