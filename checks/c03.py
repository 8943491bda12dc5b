"""C03: multivariate polynomial and Fourier bases are the products of univariate ones."""

import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub

ASSUMPTIONS = [
    "Reference: products of the univariate references of C01 over the multi-indices whose sum does not exceed the "
    "degree, first dimension varying fastest; a product is dropped when each of its factors is removed in its dimension.",
    "1 to 5 dimensions, orders 0-5 per dimension; tolerance 1e-8 of the product of the univariate scales.",
]


def check(case):
    return multi.check_matrices(case, case["kind"])


@st.composite
def cases(draw):
    c = draw(multi.poly_case())
    c["kind"] = draw(st.sampled_from(["numpy", "jax", "strided", "readonly"]))
    return c


def enum(tier):
    for basis, backend in itertools.product(ref.POLY, gen.BACKENDS):
        for dim, m in ((1, 5), (2, 2), (2, 3), (2, 5), (2, 9), (3, 3), (3, 5), (4, 4), (5, 3)):
            for nC in (1, 2, [1], [2, 0], -1):
                if isinstance(nC, list) and max(nC) >= m or isinstance(nC, int) and nC > m - 1:
                    continue
                for j, d in enumerate(((0,) * dim, (1,) * dim, (2,) + (0,) * (dim - 1), (0,) * (dim - 1) + (3,))):
                    spec = [nC] * dim
                    if j % 2:
                        spec[-1] = 1
                    yield {
                        "basis": basis, "backend": backend, "dim": dim, "m": m, "n": [2] * dim, "nC": spec,
                        "dom": [[-0.5, 1.5 + k] for k in range(dim)], "np": 3, "xs": 5, "d": list(d), "kind": "numpy",
                    }  # fmt: skip


SUBS = [
    Sub(
        "products", check, cases, enum=enum, quick=4000, thorough=30000, shards=8,
        rule="1-5 dimensions, both backends, removal per dimension as integer, list or none, orders per dimension, all "
        "derivative methods; a grid of small shapes first. Non-trivial: 2 or more dimensions and some order > 0.",
    )
]  # fmt: skip
