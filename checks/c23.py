"""C23: objects do not influence each other, through any history of creation, evaluation, compilation and deletion."""

import gc
import threading

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Reference matrices are those of C01-C04. A compiled function is not judged after the weights of its own object were replaced; one "
    "that outlives the last other reference to its object is.",
    "Threads evaluate existing objects; no object is created meanwhile.",
]
UNI = {"H": 0, "dH": 1, "d2H": 2}
MULTI = ["H", "Hx", "Hy", "Hxy"]


class Thing:
    def __init__(self, spec):
        from tfc import utfc

        self.spec = spec = dict(spec)
        self.dim = spec["dim"]
        self.elm = spec["basis"] in ref.ELM
        self.m = spec["m"]
        self.ws = spec["ws"]
        if self.dim == 0:
            x0, xf = spec["dom"][0]
            self.t = utfc(4, spec["nC"], self.m - 1, basis=spec["basis"], x0=x0, xf=xf, backend=spec["backend"])
            if self.elm:
                self.set(spec["ws"])
        else:
            c = dict(spec, n=[3] * self.dim, dom=spec["dom"][: self.dim], amp=1.0, nC=spec["nC"] if self.elm else [spec["nC"]] * self.dim)
            self.c = c
            self.t = multi.make(c)

    def set(self, ws):
        self.ws = ws
        if self.dim == 0:
            self.w, self.b = gen.arr(ws, self.m), gen.arr(ws + 1, self.m)
            self.t.basisClass.w, self.t.basisClass.b = self.w, self.b
        else:
            self.c = dict(self.c, ws=ws)
            self.t.basisClass.w, self.t.basisClass.b = multi.weights(self.c)

    def points(self, s, n):
        if self.dim == 0:
            x0, xf = self.spec["dom"][0]
            return x0 + (xf - x0) * gen.arr(s, (1, n), 0.0, 1.0)
        return multi.points(dict(self.c, xs=s, np=n))

    def name(self, k):
        names = list(UNI) if self.dim == 0 else [q for q in MULTI if multi.orders(q, self.dim) is not None]
        if self.spec["backend"] == "Python" and self.elm:
            names = names[:2]
        return names[k % len(names)]

    def expected(self, name, x, full):
        if self.dim == 0:
            x0, xf = self.spec["dom"][0]
            v, s = ref.uni_H(self.spec["basis"], x[0], x0, xf, self.m, UNI[name], *((self.w, self.b) if self.elm else ()))
            keep = [k for k in range(self.m) if full or k not in gen.removed(self.spec["nC"])]
            return v[:, keep], s[:, keep]
        return multi.matrix(self.c, x, multi.orders(name, self.dim), full)

    def kink(self, x):
        if self.spec["basis"] != "ELMReLU":
            return False
        if self.dim:
            return multi.near_kink(self.c, x)
        x0, xf = self.spec["dom"][0]
        return bool(np.any(np.abs(np.outer((x[0] - x0) / (xf - x0), self.w) + self.b) < 1e-9))


class Raw:
    """A basis object on its own, which is really deleted when it is dropped."""

    def __init__(self, spec):
        from tfc.utils import BF

        self.spec, self.m, self.dim = spec, spec["m"], spec["dim"]
        elm = spec["basis"] in ref.ELM
        gone = sorted(gen.removed(max(spec["nC"], 0) if isinstance(spec["nC"], int) else spec["nC"]))
        nC = np.array(gone, dtype=np.int32)
        if self.dim == 0:
            x0, xf = spec["dom"][0]
            self.o = getattr(BF, spec["basis"])(x0, xf, nC, self.m)
            self.c = None
        else:
            dom = np.array(spec["dom"][: self.dim])
            self.c = dict(spec, dom=spec["dom"][: self.dim], amp=1.0, nC=gone if elm else [gone] * self.dim)
            self.o = getattr(BF, "n" + spec["basis"])(dom[:, 0].copy(), dom[:, 1].copy(), nC if elm else np.tile(nC, (self.dim, 1)), self.m)
        self.gone, self.wb = gone, ()
        if elm:
            self.wb = (gen.arr(spec["ws"], self.m), gen.arr(spec["ws"] + 1, self.m)) if self.dim == 0 else multi.weights(self.c)
            self.o.w, self.o.b = self.wb

    def check(self, s, n, full):
        if self.spec["basis"] == "ELMReLU":
            return
        if self.dim == 0:
            x0, xf = self.spec["dom"][0]
            x = x0 + (xf - x0) * gen.arr(s, n, 0.0, 1.0)
            v, sc = ref.uni_H(self.spec["basis"], x, x0, xf, self.m, 1, *self.wb)
            keep = [k for k in range(self.m) if full or k not in self.gone]
            ref.compare(self.o.H(x, 1, full), v[:, keep], sc[:, keep], f"basis object {self.spec['basis']}")
        else:
            x = multi.points(dict(self.c, xs=s, np=n))
            v, sc = multi.matrix(self.c, x, (1,) + (0,) * (self.dim - 1), full)
            ref.compare(self.o.H(x, np.array([1] + [0] * (self.dim - 1), dtype=np.int32), full), v, sc, f"basis object n{self.spec['basis']}")


class Fn:
    """A compiled function and, at the time it was compiled, what it must return."""

    def __init__(self, thing, name, full):
        import jax

        t = thing.t
        self.f = jax.jit(lambda *x: getattr(t, name)(*x, full=full))
        self.snap = Thing.__new__(Thing)
        self.snap.__dict__.update({k: v for k, v in thing.__dict__.items() if k != "t"})
        self.name, self.full, self.owner = name, full, thing

    def call(self, s, n):
        import jax.numpy as jnp

        x = self.snap.points(s, n)
        if self.snap.kink(x):
            return
        got = self.f(*[jnp.array(q) for q in x])
        v, sc = self.snap.expected(self.name, x, self.full)
        ref.compare(got, v, sc, f"compiled {self.name} of {self.snap.spec['basis']} dim={self.snap.dim}")


def check(case):
    import jax.numpy as jnp
    from tfc import HybridUtfc

    things, fns, raws = {}, [], {}
    kinds = set()
    for op in case["ops"]:
        k, slot = op["op"], op["slot"]
        kinds.add(k)
        if k == "raw":
            raws[slot] = Raw(op["spec"])
            continue
        if k == "raw drop":
            raws.pop(slot, None)
            gc.collect()
            continue
        if k == "raw use":
            if slot in raws:
                raws[slot].check(op["s"], op["n"], op["full"])
            continue
        if k == "new" or slot not in things:
            things[slot] = Thing(op["spec"])
        th = things[slot]
        name = th.name(op["k"])
        x = th.points(op["s"], op["n"])
        if k == "eager" and not th.kink(x):
            xin = [q.copy() for q in x]
            got = getattr(th.t, name)(*(xin if op["s"] % 2 else [jnp.array(q) for q in x]), full=op["full"])
            v, sc = th.expected(name, x, op["full"])
            ref.compare(got, v, sc, f"{name} of {th.spec['basis']} dim={th.dim}")
            if any(not np.array_equal(a, b) for a, b in zip(xin, x)):
                fail("the points were changed")
        elif k == "compile" and th.spec["backend"] == "C++":
            fns.append(Fn(th, name, op["full"]))
            fns[-1].call(op["s"], op["n"])
        elif k == "call" and fns:
            fns[op["k"] % len(fns)].call(op["s"], op["n"])
        elif k == "weights" and th.elm:
            th.set(op["s"])
            fns = [f for f in fns if f.owner is not th]
        elif k == "drop":
            del things[slot]
            for f in fns:
                if f.owner is th:
                    f.owner = None
            del th
            gc.collect()
        elif k == "hybrid":
            parts = [q for q in things.values() if q.dim == 0]
            if parts:
                pts = gen.arr(op["s"], (1, op["n"]), 0.0, 0.5)
                if any(q.kink(pts) for q in parts):
                    continue
                h = HybridUtfc([q.t for q in parts])
                got = h.H(pts[0], full=op["full"])
                vs = [q.expected("H", pts, op["full"]) for q in parts]
                ref.compare(got, np.hstack([v for v, _ in vs]), np.hstack([s for _, s in vs]), "hybrid")
        elif k == "threads" and fns:
            errors = []

            def work(i):
                try:
                    for r in range(3):
                        fns[(i + r) % len(fns)].call(op["s"] + i * 7 + r, op["n"])
                except BaseException as e:
                    errors.append(e)

            ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if errors:
                raise errors[0]
    # at the end everything still works
    for r in raws.values():
        r.check(case["end"], 3, False)
    for f in fns:
        f.call(case["end"], 3)
    for th in things.values():
        x = th.points(case["end"], 3)
        if not th.kink(x):
            v, sc = th.expected("H", x, False)
            ref.compare(th.t.H(*x), v, sc, f"H of {th.spec['basis']} at the end")
    return len(things) > 1 and len(kinds) > 3 and bool(fns)


@st.composite
def cases(draw):
    small = st.sampled_from([[0.0, 1.0], [-1.0, 1.0], [0.0, 2.0], [-0.5, 1.5]])

    @st.composite
    def spec(d):
        dim = d(st.sampled_from([0, 0, 0, 1, 2, 3]))
        m = d(st.integers(2, 6))
        basis = d(st.sampled_from(ref.ELM + (ref.POLY if dim == 0 else ["CP", "LeP", "FS"])))
        return {
            "dim": dim, "m": m, "basis": basis, "backend": d(st.sampled_from(["C++", "C++", "C++", "Python"])),
            "nC": d(st.integers(0, 1) if basis in ref.ELM or dim == 0 else st.sampled_from([-1, 1, [0]])), "dom": [d(small) for _ in range(3)], "ws": d(gen.seeds()),
        }  # fmt: skip

    op = st.fixed_dictionaries({
        "op": st.sampled_from(["new", "new", "eager", "eager", "compile", "compile", "call", "weights", "drop", "hybrid", "threads", "raw", "raw", "raw drop", "raw use"]),
        "slot": st.integers(0, 3), "spec": spec(), "k": st.integers(0, 11), "s": gen.seeds(), "n": st.sampled_from([1, 2, 5, 5, 40]), "full": st.booleans(),
    })  # fmt: skip
    return {"ops": draw(gen.lists(op, 2, 16)), "end": draw(gen.seeds())}


SUBS = [
    Sub("histories", check, cases, quick=960, thorough=6000, shards=8,
        rule="histories of up to 16 creations, evaluations, compilations, calls of functions compiled earlier, replacements of weights, creation and deletion of basis objects on their own, deletions, "
        "hybrids and concurrent calls over four objects of any kind. Non-trivial: several objects, more than three kinds of operation, a compiled function."),
]  # fmt: skip
