import numpy as np

RULES = [("Gauss-Radau", 3, 4, None), ("Gauss-Radau", 4, 6, 6), ("Gauss-Radau", 5, 8, 6), ("Gauss", 1, 1, None), ("Gauss", 2, 3, None),
         ("Gauss", 3, 5, None), ("Newton-Cotes", 2, 1, None), ("Newton-Cotes", 3, 3, None), ("Midpoint-Rule", 1, 1, None)]
RULE = "all rules on random intervals, all monomials up to the promised degree"
BOUND = "20 random intervals per rule"


def run(ctx):
    import dxss.precomp_time_int as m

    for name, n, deg, digits in RULES:
        r = ctx.guard(f"{name} {n}", lambda: m.QuadRule(name, n))
        if r is None:
            continue
        u = 0.5 * 10.0**-digits if digits else 1e-13
        for _ in range(20):
            a = float(ctx.np.uniform(-3, 3))
            b = a + float(10 ** ctx.np.uniform(-3, 1))
            inp = {"rule": name, "n": n, "a": a, "b": b}
            p = np.array([float(x) for x in r.current_pts(a, b)])
            w = np.array([float(x) for x in r.t_weights(b - a)])
            ctx.check(f"{name} {n}: counts", len(p) == n and len(w) == n, inp)
            if len(p) != n or len(w) != n:
                continue
            L = b - a
            eps = 1e-12 * max(1, abs(a), abs(b))
            ctx.check(f"{name} {n}: inside", bool(np.all(p >= a - eps) and np.all(p <= b + eps)), inp)
            ctx.check(f"{name} {n}: positive", bool(np.all(w > 0)), inp)
            if name == "Gauss-Radau":
                ctx.check(f"{name} {n}: left end", abs(p[0] - a) <= eps, inp)
            s = (p - a) / L
            for k in range(deg + 1):
                err = float(np.sum(w / L * s**k) - 1 / (k + 1))
                ctx.check(f"{name} {n}: degree {k}", abs(err) <= (n + 2 * k) * u + 1e-9 * (1 if L > 1e-2 else 10), {**inp, "k": k, "error": err})
