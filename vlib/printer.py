"""The printer that the solver's "tfc" print type installs, and code printed with it."""

_doprint = None


def tfc_code(expr):
    """What the "tfc" print type shows for expr."""
    global _doprint
    if _doprint is None:
        import sympy
        from tfc.utils import CeSolver

        got = {}
        old = sympy.init_printing
        sympy.init_printing = lambda *a, **kw: got.update(kw)
        try:
            cs = CeSolver([lambda u: u], [sympy.Integer(0)], [sympy.Integer(1)], sympy.Symbol("x"))
            cs.print_type = "tfc"
        finally:
            sympy.init_printing = old
        _doprint = got.get("pretty_printer")
        if _doprint is None:
            from tfc.utils.CeSolver import TfcPrinter

            _doprint = TfcPrinter().doprint
    return _doprint(expr)


def namespace(functions, n, egrad):
    """Where printed code runs: np, egrad and the free functions, each broadcasting its arguments to n points."""
    import jax.numpy as jnp

    def spread(a):
        return jnp.broadcast_to(jnp.asarray(a, dtype=float), (n,))

    class Fun:
        def __init__(self, f):
            self.f = f

        def __call__(self, *a):
            return self.f(*[spread(v) for v in a])

    def eg(f, j=0):
        return Fun(egrad(f.f, j))

    ns = {"np": jnp, "egrad": eg}
    for name, f in functions.items():
        ns[name] = Fun(f)
    return ns
