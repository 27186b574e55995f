"""C06 assembled matrix."""
from .st import ASSUMPTIONS, Cfg, Prob, assume, cfgs, check_global, ok, thin  # noqa: F401


def unit(c):
    def h(e):
        assume(e)

        def run():
            p = Prob(c)
            return p, p.st.get_spacetime_matrix()

        def on_path(r):
            if ok(e, r[1]):
                p, a = r[1][1]
                check_global(e, p, a, False, "matrix")

        e.explore(run, on_path)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier, fitted=(True, False)) if c.fitted or thin(tier, c)]
