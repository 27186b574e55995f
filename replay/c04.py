RULE = "lifting function and derivative at the end points and random points"
BOUND = "60 random points"


def run(ctx):
    import dxss.precomp_time_int as m

    for t in [-1.0, 0.0, 1.0] + list(ctx.np.uniform(-1, 1, 60)) + list(ctx.np.uniform(-3, 3, 10)):
        ctx.close("theta", m.theta_ref(t), t * (t - 1) / 2, 1e-12, {"t": float(t)})
        ctx.close("dtheta", m.d_theta_ref(t), t - 0.5, 1e-12, {"t": float(t)})
