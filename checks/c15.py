"""C15: the dictionaries of unknowns behave like the concatenation of their values, through any history."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Values are float arrays (1-D for the plain class, any shape for the robust one). In-place addition to a dictionary of "
    "numpy arrays changes those arrays, as numpy does, so numpy arrays are not shared between dictionaries here.",
]
KEYS = ["y", "xi", "b", "A1", "zeta", "a"]


def rnd(seed, shape):
    return np.round(gen.arr(seed, tuple(shape)) * 8) / 4


def flat(m):
    return np.concatenate([np.asarray(v).reshape(-1) for _, v in m]) if m else np.zeros(0)


def check(case):
    import jax
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust

    cls = TFCDict if case["cls"] == "TFCDict" else TFCDictRobust
    regs, models, npflag = [], [], []

    def put(v, i):
        return np.array(v) if npflag[i] else jnp.array(v)

    def same(d, m, what):
        if type(d) is not cls:
            fail(f"{what}: a {type(d).__name__}, expected a {cls.__name__}")
        if list(d.keys()) != [k for k, _ in m]:
            fail(f"{what}: keys {list(d.keys())}, expected {[k for k, _ in m]}")
        for k, v in m:
            got = np.asarray(d[k])
            if got.shape != v.shape:
                fail(f"{what}: {k} has shape {got.shape}, expected {v.shape}")
            if not np.allclose(got, v, rtol=0, atol=1e-9):
                fail(f"{what}: {k} is {got.tolist()}, expected {v.tolist()}")

    def shape(s):
        return s if cls is TFCDictRobust else [int(np.prod(s))]

    def split(m, arr):
        out, k = [], 0
        for key, v in m:
            out.append((key, arr[k : k + v.size].reshape(v.shape)))
            k += v.size
        return out

    def new(items, isnp):
        npflag.append(isnp)
        m = [(k, rnd(s, shape(sh))) for k, sh, s in items]
        i = len(npflag) - 1
        regs.append(cls([(k, put(v, i)) for k, v in m]))
        models.append(m)

    for items, isnp in case["init"]:
        new(items, isnp)
    kinds = set()
    for step, op in enumerate(case["ops"]):
        name, i = op["op"], op["i"] % len(regs)
        d, m = regs[i], models[i]
        what = f"step {step} {name}"
        keys = [k for k, _ in m]
        kinds.add(name)
        if name == "set":
            k = KEYS[op["k"] % len(KEYS)]
            v = rnd(op["s"], shape(op["shape"]))
            d[k] = put(v, i)
            models[i] = [(a, v if a == k else b) for a, b in m] if k in keys else m + [(k, v)]
        elif name == "change value":
            k = keys[op["k"] % len(keys)]
            v = rnd(op["s"], dict(m)[k].shape)
            d[k] = put(v, i)
            models[i] = [(a, v if a == k else b) for a, b in m]
        elif name in ("del", "pop", "popitem"):
            if len(keys) < 2:
                continue
            k = keys[op["k"] % len(keys)]
            if name == "del":
                del d[k]
            elif name == "pop":
                if not np.allclose(np.asarray(d.pop(k)), dict(m)[k]):
                    fail(f"{what}: popped the wrong value")
            else:
                k = keys[-1]
                if d.popitem()[0] != k:
                    fail(f"{what}: popped the wrong key")
            models[i] = [(a, b) for a, b in m if a != k]
        elif name == "update":
            new_items = [(KEYS[(op["k"] + j) % len(KEYS)], rnd(op["s"] + j, shape(op["shape"]))) for j in range(1 + op["k"] % 3)]
            src = {k: put(v, i) for k, v in new_items}
            d.update(src if op["s"] % 2 else list(src.items()))
            up = dict(new_items)
            models[i] = [(a, up.get(a, b)) for a, b in m] + [(a, b) for a, b in new_items if a not in keys]
        elif name == "setdefault":
            k = KEYS[op["k"] % len(KEYS)]
            v = rnd(op["s"], shape(op["shape"]))
            d.setdefault(k, put(v, i))
            if k not in keys:
                models[i] = m + [(k, v)]
        elif name == "move_to_end":
            k = keys[op["k"] % len(keys)]
            last = bool(op["s"] % 2)
            d.move_to_end(k, last)
            rest = [(a, b) for a, b in m if a != k]
            models[i] = rest + [(k, dict(m)[k])] if last else [(k, dict(m)[k])] + rest
        elif name in ("+", "-", "+=", "-="):
            sgn = 1 if "+" in name else -1
            other = op["other"]
            if other in ("array", "numpy"):
                v = rnd(op["s"], (flat(m).size,))
                arg = np.array(v) if other == "numpy" else jnp.array(v)
                if op["k"] % 3 == 0:
                    arg = arg.reshape((1, -1))
                add = split(m, v)
            else:
                add = [(k, rnd(op["s"] + j, b.shape)) for j, (k, b) in enumerate(m)]
                perm = np.random.RandomState(op["s"] % 2**32).permutation(len(add))
                pairs = [(add[p][0], put(add[p][1], i)) for p in perm]
                if op["k"] % 2:
                    pairs.append(("extra", put(rnd(1, [2]), i)))
                arg = dict(pairs) if other == "dict" else cls(pairs)
            res = [(k, b + sgn * dict(add)[k]) for k, b in m]
            before = [np.array(np.asarray(v)) for v in (arg.values() if isinstance(arg, dict) else [arg])]
            if name == "+":
                out = d + arg
            elif name == "-":
                out = d - arg
            elif name == "+=":
                out = d
                out += arg
            else:
                out = d
                out -= arg
            after = [np.asarray(v) for v in (arg.values() if isinstance(arg, dict) else [arg])]
            if not all(np.array_equal(a, b) for a, b in zip(before, after)):
                fail(f"{what}: the operand was changed")
            if "=" in name:
                if out is not d:
                    fail(f"{what}: another object")
                models[i] = res
            else:
                same(out, res, f"{what} with {other}")
                regs.append(out)
                models.append(res)
                npflag.append(False)
                # results may hold numpy or JAX arrays
                for k in list(out.keys()):
                    out[k] = jnp.array(np.asarray(out[k]))
        elif name == "toArray":
            got = np.asarray(d.toArray())
            if got.shape != flat(m).shape or not np.allclose(got, flat(m), rtol=0, atol=1e-9):
                fail(what, got=got.tolist(), expected=flat(m).tolist())
            same(d.toDict(d.toArray()), m, what + " and back")
        elif name == "toDict":
            v = rnd(op["s"], (flat(m).size,))
            out = d.toDict(jnp.array(v) if op["k"] % 2 else jnp.array(v).reshape(1, -1))
            same(out, split(m, v), what)
            regs.append(out)
            models.append(split(m, v))
            npflag.append(False)
        elif name == "jit":
            out = jax.jit(lambda t: jax.tree_util.tree_map(lambda a: 2.0 * a, t))(d)
            res = [(k, 2.0 * v) for k, v in m]
            same(out, res, what)
            regs.append(out)
            models.append(res)
            npflag.append(False)
        elif name == "jit add":
            v = rnd(op["s"], (flat(m).size,))
            out = jax.jit(lambda t, a: t - a)(d, jnp.array(v))
            same(out, [(k, dict(m)[k] - b) for k, b in split(m, v)], what)
            got = np.asarray(jax.jit(lambda t: t.toArray())(d))
            if not np.allclose(got, flat(m)):
                fail(what, got=got.tolist(), expected=flat(m).tolist())
        elif name == "grad":
            w = rnd(op["s"], (flat(m).size,))
            out = jax.grad(lambda t: jnp.dot(t.toArray(), jnp.array(w)))(cls([(k, jnp.array(v)) for k, v in m]))
            same(out, split(m, w), what)
        elif name == "copy":
            if npflag[i]:
                continue
            out = cls(d) if op["k"] % 2 else d.copy()
            regs.append(out)
            models.append(list(m))
            npflag.append(False)
        elif name == "block_until_ready":
            if npflag[i]:
                continue
            if d.block_until_ready() is not d:
                fail(f"{what}: another object")
        if len(regs) > 5:
            regs, models, npflag = regs[-5:], models[-5:], npflag[-5:]
        for j in range(len(regs)):
            same(regs[j], models[j], f"dictionary {j} after {what} on {i}")
    return len(kinds) > 3 and any(len(m) > 1 for m in models)


OPS = ["set", "change value", "del", "pop", "popitem", "update", "setdefault", "move_to_end", "+", "-", "+=", "-=", "+", "-", "+=", "-=",
       "toArray", "toDict", "toArray", "toDict", "jit", "jit add", "grad", "copy", "block_until_ready"]  # fmt: skip


def shapes():
    return st.sampled_from([[1], [2], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2]])


@st.composite
def cases(draw):
    item = st.tuples(st.sampled_from(KEYS), shapes(), gen.seeds()).map(list)
    items = st.lists(item, min_size=1, max_size=4, unique_by=lambda t: t[0])
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(OPS), "i": st.integers(0, 5), "k": st.integers(0, 5), "s": st.integers(0, 10**6),
            "shape": shapes(), "other": st.sampled_from(["array", "numpy", "dict", "same"]),
        }
    )  # fmt: skip
    return {
        "cls": draw(st.sampled_from(["TFCDict", "TFCDictRobust"])),
        "init": draw(gen.lists(st.tuples(items, st.booleans()).map(list), 1, 2)),
        "ops": draw(gen.lists(op, 3, 14)),
    }


SUBS = [
    Sub(
        "histories", check, cases, quick=2400, thorough=12000, shards=6, ext=True,
        rule="sequences of up to 14 operations (setting, deleting and reordering keys, arithmetic with arrays, dictionaries and "
        "each other, conversion to and from arrays, JAX transformations) on up to five dictionaries, all compared with a list "
        "model after each. Non-trivial: more than three kinds of operation and several keys.",
    ),
]  # fmt: skip
