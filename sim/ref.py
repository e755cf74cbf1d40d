"""Independent reference for integrated results and their gradients.

Given a trajectory y the reference checks that it solves the one-step recursion

    backward Euler:  y_k - y_{k-1} - f(t_k, y_k) (t_k - t_{k-1}) = 0
    forward Euler:   y_k - y_{k-1} - f(t_{k-1}, y_{k-1}) (t_k - t_{k-1}) = 0

by computing the full Newton correction of the stacked system, with derivative matrices
from automatic differentiation of the *rate* only (never the model's own Jacobian), and
obtains gradients from the implicit function theorem by plain substitution, one step after
the other.  Interpolation, control and linear algebra are written here; nothing from
pyoptmat.ode / chunktime / solvers / utility is used.
"""
import torch


class RefFail(Exception):
    """the reference could not evaluate the workload"""


def jac_ad(f, y):
    """d f_i / d y_j for a batched f with independent leading entries."""
    with torch.enable_grad():
        yy = y.detach().clone().requires_grad_(True)
        r = f(yy)
        rows = []
        for i in range(r.shape[-1]):
            (g,) = torch.autograd.grad(r[..., i].sum(), yy, retain_graph=True, allow_unused=True)
            rows.append(torch.zeros_like(yy) if g is None else g)
    return torch.stack(rows, dim=-2).detach()


def blocks(rate, y, times, method):
    """Diagonal and lower blocks (ntime-1, nb, n, n) of the stacked system, y detached."""
    y = y.detach()
    dt = times.diff(dim=0)[..., None, None]
    I = torch.eye(y.shape[-1]).expand(*y[1:].shape, -1)
    if method == "forward-euler":
        J = jac_ad(lambda x: rate(times[:-1], x), y[:-1])
        return I, -(I + J * dt)
    J = jac_ad(lambda x: rate(times[1:], x), y[1:])
    return I - J * dt, -I


def residual(rate, y, times, method):
    dt = times.diff(dim=0)[..., None]
    if method == "forward-euler":
        f = rate(times[:-1], y[:-1])
    else:
        f = rate(times[1:], y[1:])
    return y[1:] - y[:-1] - f * dt


def mv(A, x):
    return (A @ x.unsqueeze(-1)).squeeze(-1)


def correction(rate, y, times, method):
    """Newton correction of the whole trajectory (ntime-1, nb, n); zero for a solution."""
    y = y.detach()
    D, L = blocks(rate, y, times, method)
    with torch.no_grad():
        R = residual(rate, y, times, method)
    out, prev = [], torch.zeros_like(y[0])
    for k in range(R.shape[0]):
        prev = torch.linalg.solve(D[k], (R[k] - mv(L[k], prev)).unsqueeze(-1)).squeeze(-1)
        out.append(prev)
    return torch.stack(out)


def gradients(rate, y, times, gy, params, method, per=None):
    """d (sum gy*y) / d params and d / d y0, by back substitution.

    ``rate`` must be differentiable with respect to ``params`` (AD of the rate).
    """
    y = y.detach()
    D, L = blocks(rate, y, times, method)
    n = y.shape[0] - 1
    lam = [None] * n
    nxt = None
    for k in reversed(range(n)):
        rhs = gy[k + 1].clone()
        if nxt is not None:
            rhs = rhs - mv(L[k + 1].transpose(-1, -2), nxt)
        nxt = torch.linalg.solve(D[k].transpose(-1, -2), rhs.unsqueeze(-1)).squeeze(-1)
        lam[k] = nxt
    lam = torch.stack(lam)
    g0 = gy[0] - mv(L[0].transpose(-1, -2), lam[0])
    if not params:
        return [], g0
    with torch.enable_grad():
        R = residual(rate, y, times, method)
        gp = torch.autograd.grad(R, params, -lam, allow_unused=True)
    gp = [torch.zeros_like(p) if g is None else g for g, p in zip(gp, params)]
    return gp, g0


# ------------------------------------------------------------- material models
def interp(times, data):
    """t (..., nb) -> data linearly interpolated, per column; left-continuous segments."""

    def fn(t):
        n = times.shape[0]
        tt = t.reshape(-1, t.shape[-1])
        idx = (times[1:, None, :] < tt[None]).sum(dim=0).clamp(max=n - 2)
        c = torch.arange(times.shape[1]).expand_as(idx)
        t0, t1 = times[idx, c], times[idx + 1, c]
        d0, d1 = data[idx, c], data[idx + 1, c]
        return (d0 + (d1 - d0) / (t1 - t0) * (tt - t0)).reshape(t.shape)

    return fn


def rates_of(times, data):
    dt = times[1:] - times[:-1]
    r = (data[1:] - data[:-1]) / dt
    r = torch.where(torch.isnan(r), torch.zeros_like(r), r)
    return torch.cat([torch.zeros(1, data.shape[1]), r])


def strain_rate_fn(model, times, temps, data):
    er, T = interp(times, rates_of(times, data)), interp(times, temps)

    def rate(t, y):
        return model(t, y, er(t), T(t))[0]

    return rate


def stress_rate_fn(model, times, temps, data):
    sr, sv, T = interp(times, rates_of(times, data)), interp(times, data), interp(times, temps)

    def rate(t, y):
        csr, cs, cT = sr(t), sv(t), T(t)
        yp = torch.cat([cs[..., None], y[..., 1:]], dim=-1)
        ypd = yp.detach()

        def eq(e, yy):
            return model(t, yy, e, cT)[0][..., 0] - csr

        def slope(e):
            with torch.enable_grad():
                ee = e.detach().requires_grad_(True)
                r = eq(ee, ypd)
                (s,) = torch.autograd.grad(r.sum(), ee)
            return r.detach(), s.detach()

        e = torch.zeros_like(cs)
        last = None
        for _ in range(60):
            r, s = slope(e)
            de = r / s
            e = e - de
            size = (de.abs() / (e.abs() + 1e-12)).max().item()
            if size < 1e-13 or (last is not None and size >= last and size < 1e-9):
                break
            last = size
        else:
            raise RefFail(f"stress control {size:.1e}")
        _, s = slope(e)
        e = e.detach()
        e = e - eq(e, yp) / s
        full = model(t, yp, e, cT)[0]
        return torch.cat([e[..., None], full[..., 1:]], dim=-1)

    return rate


def both_rate_fn(model, times, temps, data, control):
    c = control == 0
    a = strain_rate_fn(model, times, temps, data)
    b = stress_rate_fn(model, times, temps, data)
    if bool(c.all()):
        return a
    if not bool(c.any()):
        return b

    def rate(t, y):
        return torch.where(c[:, None], a(t, y), b(t, y))

    return rate
