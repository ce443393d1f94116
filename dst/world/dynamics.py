"""Independent reference of the equations of motion of the bodies of dg_commons, in the order of STATE_FIELDS.

Written from their documentation (bicycle model, single track model with Pacejka tyres, double integrator, unicycle, ...);
only the parameters are read from the model objects. `rhs(model, kind, x, u, friction)` is the derivative of the state.
"""
import math

import numpy as np
from scipy.integrate import solve_ivp

from dst.world.bodies import COMMAND_FIELDS, STATE_FIELDS, make_model

GRAVITY, AIR = 9.81, 1.249512
TWO_WHEELS = ("bike", "moto", "bikedyn")
DEAF = ("truck", "bike", "moto", "truckdyn", "bikedyn", "ped", "diff", "spacecraft", "spaceship", "rocket")


def clip(v, lim):
    return lim[0] if v < lim[0] else lim[1] if v > lim[1] else v


def gate(value, rate, lim):
    """No further beyond the limits of the integrated quantity"""
    if (value <= lim[0] and rate < 0) or (value >= lim[1] and rate > 0):
        return 0.0
    return rate


def pacejka(p, slip):
    """Magic formula (with the curvature term if the tyre has one)"""
    b = p.B * slip
    e = getattr(p, "E", 0.0)
    return p.D * math.sin(p.C * math.atan(b - e * (b - e * math.atan(b)) if e else b))


def bicycle(model, x, u):
    vx, delta, psi = x["vx"], x["delta"], x["psi"]
    g, p = model.model_geometry, model.model_params
    w = vx * math.tan(delta) / (g.lf + g.lr)
    vy = w * g.lr
    c, s = math.cos(psi), math.sin(psi)
    return dict(x=vx * c - vy * s, y=vx * s + vy * c, psi=w,
                vx=gate(vx, clip(u["acc"], p.acc_limits), p.vx_limits),
                delta=gate(delta, clip(u["ddelta"], (-p.ddelta_max, p.ddelta_max)), (-p.delta_max, p.delta_max)))


def single_track(model, x, u, fr):
    d = bicycle(model, x, u)
    if x["vx"] < 0.1:
        return dict(d, vx=d["vx"] + fr[0], vy=fr[1], dpsi=fr[2])
    g = model.model_geometry
    vx, vy, w, delta, psi = x["vx"], x["vy"], x["dpsi"], x["delta"], x["psi"]
    acc, wb = d["vx"], g.lf + g.lr
    n1 = -g.m * (GRAVITY * g.lr - g.h_cog * acc) / wb
    n2 = -g.m * (GRAVITY * g.lf + g.h_cog * acc) / wb
    if acc <= 0:
        a1, a2 = 0.6 * g.m * acc, 0.4 * g.m * acc
    else:
        a1 = a2 = 0.5 * g.m * acc
    a1 += g.c_rr_f * n1
    a2 += g.c_rr_r * n2
    c, s = math.cos(delta), math.sin(delta)
    v1y = vy + g.lf * w
    lon, lat = c * vx + s * v1y, -s * vx + c * v1y
    mu1 = pacejka(model.pacejka_front, math.atan(lat / lon))
    mu2 = pacejka(model.pacejka_rear, math.atan((vy - g.lr * w) / vx))
    f1y, f2y = mu1 * n1, mu2 * n2
    f1x = a1 * math.sqrt(max(0.0, 1 - (mu1 / model.pacejka_front.D) ** 2))
    f2x = a2 * math.sqrt(max(0.0, 1 - (mu2 / model.pacejka_rear.D) ** 2))
    drag = -0.5 * vx * g.a_drag * g.c_drag * AIR**2
    b1x, b1y = c * f1x - s * f1y, s * f1x + c * f1y
    cp, sp = math.cos(psi), math.sin(psi)
    return dict(x=vx * cp - vy * sp, y=vx * sp + vy * cp, psi=w, delta=d["delta"],
                vx=(b1x + drag + f2x) / g.m + w * vy + fr[0], vy=(b1y + f2y) / g.m - w * vx + fr[1],
                dpsi=(b1y * g.lf - f2y * g.lr) / g.Iz + fr[2])


def rhs(model, kind: str, x: dict, u: dict, fr=(0.0, 0.0, 0.0)) -> dict:
    if kind in ("car", "truck", "bike", "moto"):
        return bicycle(model, x, u)
    if kind in ("cardyn", "truckdyn", "bikedyn"):
        return single_track(model, x, u, fr)
    g, p = model.model_geometry, model.model_params
    psi = x["psi"]
    c, s = math.cos(psi), math.sin(psi)
    if kind == "diff":
        l, r = clip(u["omega_l"], p.omega_limits), clip(u["omega_r"], p.omega_limits)
        v = g.wheelradius * (l + r) / 2
        return dict(x=v * c, y=v * s, psi=g.wheelradius * (r - l) / g.wheelbase)
    vx, vy, w = x["vx"], x["vy"], x["dpsi"]
    body = dict(x=vx * c - vy * s, y=vx * s + vy * c)
    if kind == "ped":
        return dict(body, psi=clip(u["dpsi"], (-p.dtheta_max, p.dtheta_max)),
                    vx=gate(vx, clip(u["acc"], p.acc_limits), p.vx_limits) + fr[0], vy=fr[1], dpsi=fr[2])
    if kind == "spacecraft":
        l, r = clip(u["acc_left"], p.acc_limits), clip(u["acc_right"], p.acc_limits)
        return dict(body, psi=w, vx=l + r + w * vy, vy=-w * vx, dpsi=gate(w, g.w_half * g.m / g.Iz * (r - l), p.dpsi_limits))
    if kind == "spaceship":
        f = clip(u["thrust"], p.thrust_limits) if x["m"] > p.m_v else 0.0
        d, m = x["delta"], x["m"]
        return dict(body, psi=w, vx=f * math.cos(d) / m + w * vy, vy=f * math.sin(d) / m - w * vx,
                    dpsi=-g.l_r * math.sin(d) * f / g.Iz, m=-p.C_T * abs(f),
                    delta=gate(d, clip(u["ddelta"], p.ddelta_limits), p.delta_limits))
    if kind == "rocket":
        full = x["m"] > p.m_v
        l = clip(u["F_left"], p.F_limits) if full else 0.0
        r = clip(u["F_right"], p.F_limits) if full else 0.0
        phi, m = x["phi"], x["m"]
        return dict(x=vx, y=vy, psi=w,
                    vx=(math.sin(phi + psi) * l + math.sin(phi - psi) * r) / m,
                    vy=(-math.cos(phi + psi) * l + math.cos(phi - psi) * r) / m,
                    dpsi=g.l_m * math.cos(phi) * (r - l) / g.Iz, m=-p.C_T * (l + r),
                    phi=gate(phi, clip(u["dphi"], p.ddelta_limits), p.delta_limits))
    if kind == "dynobs":
        return dict(body, psi=w, vx=gate(vx, clip(u["acc_x"] + w * vy, p.acc_limits), p.vx_limits),
                    vy=gate(vy, clip(u["acc_y"] - w * vx, p.acc_limits), p.vx_limits),
                    dpsi=gate(w, clip(u["acc_psi"], p.ddpsi_limits), p.dpsi_limits))
    raise ValueError(kind)


def friction(kind: str, x: dict, collided: bool):
    """The friction of bodies that collided, from their speed at the beginning of the step"""
    if not collided or kind not in ("ped", "cardyn", "truckdyn", "bikedyn"):
        return 0.0, 0.0, 0.0
    mu = 2.0 if kind == "ped" else 3.0 if kind == "bikedyn" else 1.0
    return -mu * x["vx"], -mu * x["vy"], -mu * x["dpsi"]


class Reference:
    """One step of a body under constant commands"""

    def __init__(self, model, kind: str, collided: bool):
        self.model, self.kind, self.collided = model, kind, collided
        self.names = STATE_FIELDS[kind]

    def f(self, x0: np.ndarray, u):
        kind, names = self.kind, self.names
        cmd = {n: 0.0 if self.collided and kind in DEAF else float(v) for n, v in zip(COMMAND_FIELDS[kind], u)}
        fr = friction(kind, dict(zip(names, x0)), self.collided)

        def fun(t, y):
            d = rhs(self.model, kind, dict(zip(names, y)), cmd, fr)
            return np.array([d[n] for n in names])

        return fun

    def fine(self, x0: np.ndarray, u, dt: float, n: int = 24):
        """Runge-Kutta with many fixed steps. Returns the final state and the largest derivatives met"""
        f = self.f(x0, u)
        y, h = np.array(x0, dtype=float), dt / n
        top = np.zeros(len(y))
        for _ in range(n):
            k1 = f(0, y)
            k2 = f(0, y + h / 2 * k1)
            k3 = f(0, y + h / 2 * k2)
            k4 = f(0, y + h * k3)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            top = np.maximum(top, np.abs(k1))
        return y, top

    def coarse(self, x0: np.ndarray, u, dt: float):
        """An integration of ordinary accuracy (its deviation from the fine one tells how hard the step is)"""
        f = self.f(x0, u)
        nx = len(x0)
        ua = np.asarray(u, dtype=float)

        def fun(t, y):
            return np.concatenate([f(t, y[:nx]), np.zeros(len(ua))])

        return solve_ivp(fun=fun, t_span=(0.0, dt), y0=np.concatenate([x0, ua])).y[:nx, -1]

    def coarse_plain(self, x0, u, dt):
        return solve_ivp(fun=self.f(x0, u), t_span=(0.0, dt), y0=x0, max_step=dt / 2).y[:, -1]


_LIMITS: dict = {}


def limits_of(kind: str, p=None) -> dict:
    """Values of the state around which the dynamics switch (p: parameters other than the default ones)"""
    if p is None:
        if kind not in _LIMITS:
            m = make_model(dict(kind=kind, x0=[0.0] * len(STATE_FIELDS[kind])))
            _LIMITS[kind] = limits_of(kind, m.model_params)
        return _LIMITS[kind]
    out = {}
    if kind in ("car", "truck", "bike", "moto", "cardyn", "truckdyn", "bikedyn"):
        out = dict(vx=p.vx_limits, delta=(-p.delta_max, p.delta_max))
    elif kind == "ped":
        out = dict(vx=p.vx_limits)
    elif kind == "spacecraft":
        out = dict(dpsi=p.dpsi_limits)
    elif kind == "spaceship":
        out = dict(delta=p.delta_limits, m=(p.m_v, 1e9))
    elif kind == "rocket":
        out = dict(phi=p.delta_limits, m=(p.m_v, 1e9))
    elif kind == "dynobs":
        out = dict(vx=p.vx_limits, vy=p.vx_limits, dpsi=p.dpsi_limits)
    return out


def judge(model, kind: str, collided: bool, x0, u, dt: float, x1):
    """One step of a body against the reference: the state it should reach, the tolerance and which limits were active"""
    ref = Reference(model, kind, collided)
    names = STATE_FIELDS[kind]
    want, top = ref.fine(x0, u, dt)
    tol = 2e-6 + 2e-4 * np.abs(want - x0) + 1e-9 * np.abs(x0)
    active = []
    for i, n in enumerate(names):
        lim = limits_of(kind, model.model_params).get(n)
        if lim and (min(x0[i], x1[i], want[i]) <= lim[0] or max(x0[i], x1[i], want[i]) >= lim[1]):
            active.append(n)
    if np.any(np.abs(x1 - want) > tol):
        # a hard step: how far an integration of ordinary accuracy gets from the exact one
        hard = np.abs(ref.coarse(x0, u, dt) - want) + np.abs(ref.coarse_plain(x0, u, dt) - want)
        tol = tol + 4 * hard
        if active:
            tol = tol + 0.02 * top * dt
        if kind in ("cardyn", "truckdyn", "bikedyn"):
            v = (x0[3], x1[3], want[3])
            if min(v) < 1.0 and max(v) >= 0.1:
                # stiff tyres, and other equations below 0.1 m/s
                tol = tol + 16 * hard + 0.1 * top * dt
    return want, tol, active
