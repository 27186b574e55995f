"""Reference solutions of the shipped problems."""
import numpy as np

from replay import drivers

RULE = "reference solutions of the imported problem modules evaluated at random space-time points; derivatives by high-order central differences"
BOUND = "60 random interior points and 60 boundary points per problem, 5e-6 relative"
W2 = {0: -205 / 72, 1: 8 / 5, 2: -1 / 5, 3: 8 / 315, 4: -1 / 560}
W1 = {1: 4 / 5, 2: -1 / 5, 3: 4 / 105, 4: -1 / 280}


def d2(f, h=0.02):
    return sum(w * (f(j * h) + (f(-j * h) if j else 0)) for j, w in W2.items()) / h**2


def d1(f, h=0.02):
    return sum(w * (f(j * h) - f(-j * h)) for j, w in W1.items()) / h


def domain(dim, p, meshes):
    for m in meshes:
        a = m["args"]
        if m["kind"] == "interval":
            return np.array([[0.0], [1.0]])
        if m["kind"] == "interval2":
            return np.array([[a["points"][0]], [a["points"][1]]], float)
        if m["kind"] == "box":
            return np.array(a["points"], float)
        if m["kind"] == "around":
            return np.array([[0.0, 0.0], [1.0, 1.0]])
    raise drivers.FakeUnsupported("mesh of the shipped problem")


def run(ctx):
    for dim in (1, 2, 3):
        mod, p, meshes = drivers.load(dim)
        box = domain(dim, p, meshes)
        sol = p.args["solution"]
        fields = list(vars(sol).values())
        u0, v0 = fields[0], fields[1]
        u = lambda t, x: float(u0(t, list(x)))  # noqa: E731
        v = lambda t, x: float(v0(t, list(x)))  # noqa: E731
        T = p.args["T"]
        for i in range(60):
            x = box[0] + ctx.np.random(dim) * (box[1] - box[0])
            t = ctx.np.random() * T
            inp = {"problem": dim, "t": float(t), "x": x.tolist()}
            utt = d2(lambda h: u(t + h, x))
            lap = sum(d2(lambda h, a=a: u(t, x + h * np.eye(dim)[a])) for a in range(dim))
            ctx.close(f"{dim}d: wave equation", utt, lap, 5e-6, inp)
            ctx.close(f"{dim}d: velocity is the time derivative", v(t, x), d1(lambda h: u(t + h, x)), 1e-6, inp)
            a, s = ctx.rng.randrange(dim), ctx.rng.randrange(2)
            x[a] = box[s][a]
            ctx.close(f"{dim}d: zero on the boundary", u(t, x), 0.0, 1e-9, inp)
        ctx.check(f"{dim}d: not identically zero", any(abs(u(0.0, box[0] + ctx.np.random(dim))) > 1e-3 for _ in range(9)))
