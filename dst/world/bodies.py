"""Bodies: the toy rigid body of the harness (exact dynamics) and builders for all the bodies of dg_commons."""
import math
from copy import deepcopy
from dataclasses import dataclass, replace
from decimal import Decimal

import numpy as np
from frozendict import frozendict
from shapely import affinity
from shapely.geometry import Polygon

from dg_commons.sim import SimModel, ImpactLocation
from dg_commons.sim.models.model_structures import ModelGeometry, ModelParameters, ModelType


@dataclass(unsafe_hash=True, eq=True)
class ToyCommands:
    ax: float
    ay: float
    dd: float
    idx = frozendict({"ax": 0, "ay": 1, "dd": 2})

    def as_ndarray(self):
        return np.array([self.ax, self.ay, self.dd], dtype=float)


@dataclass(unsafe_hash=True, eq=True)
class ToyState:
    x: float
    y: float
    psi: float
    vx: float
    vy: float
    dpsi: float
    idx = frozendict({"x": 0, "y": 1, "psi": 2, "vx": 3, "vy": 4, "dpsi": 5})

    def as_ndarray(self):
        return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi], dtype=float)

    def __add__(self, o):
        return ToyState(*(self.as_ndarray() + o.as_ndarray()))

    __radd__ = __add__

    def __mul__(self, v):
        return ToyState(*(self.as_ndarray() * v))

    __rmul__ = __mul__


@dataclass(frozen=True, unsafe_hash=True)
class ToyGeometry(ModelGeometry):
    poly: tuple = ()

    @property
    def outline(self):
        return self.poly


@dataclass(frozen=True, unsafe_hash=True)
class ToyParams(ModelParameters):
    pass


def toy_step(s: ToyState, u, dt: float) -> ToyState:
    """Exact solution for constant accelerations in the global frame"""
    return ToyState(
        x=s.x + s.vx * dt + 0.5 * u.ax * dt * dt,
        y=s.y + s.vy * dt + 0.5 * u.ay * dt * dt,
        psi=s.psi + s.dpsi * dt + 0.5 * u.dd * dt * dt,
        vx=s.vx + u.ax * dt,
        vy=s.vy + u.ay * dt,
        dpsi=s.dpsi + u.dd * dt,
    )


def polygon_points(shape: dict) -> tuple:
    k = shape["k"]
    if k == "rect":
        l, w = shape["l"] / 2, shape["w"] / 2
        return ((-l, -w), (-l, w), (l, w), (l, -w), (-l, -w))
    if k == "tri":
        r = shape["r"]
        pts = [(r * math.cos(a), r * math.sin(a)) for a in (0.0, 2 * math.pi / 3, 4 * math.pi / 3)]
        return tuple(pts + pts[:1])
    if k == "hex":
        r = shape["r"]
        pts = [(r * math.cos(i * math.pi / 3), r * math.sin(i * math.pi / 3)) for i in range(6)]
        return tuple(pts + pts[:1])
    if k == "U":
        s = shape["s"]
        pts = [(-1.5, -1.5), (1.5, -1.5), (1.5, 1.5), (0.5, 1.5), (0.5, -0.5), (-0.5, -0.5), (-0.5, 1.5), (-1.5, 1.5)]
        return tuple((x * s, y * s) for x, y in pts + pts[:1])
    raise ValueError(k)


class ToyBody(SimModel):
    """A free rigid body with exactly known motion. Velocities of its state are in the global frame."""

    def __init__(self, x0: ToyState, geo: ToyGeometry, inplace: bool = False):
        self._state = x0
        self.geo = geo
        self.inplace = inplace
        self._poly = Polygon(geo.poly)
        self._params = ToyParams(vx_limits=(-100, 100), acc_limits=(-100, 100))

    def update(self, commands, dt):
        new = toy_step(self._state, commands, float(dt))
        if self.inplace:
            for k in ToyState.idx:
                setattr(self._state, k, getattr(new, k))
        else:
            self._state = new

    def get_footprint(self) -> Polygon:
        s = self._state
        c, n = math.cos(s.psi), math.sin(s.psi)
        return affinity.affine_transform(self._poly, [c, -n, n, c, s.x, s.y])

    def get_pose(self):
        s = self._state
        c, n = math.cos(s.psi), math.sin(s.psi)
        return np.array([[c, -n, s.x], [n, c, s.y], [0.0, 0.0, 1.0]])

    def get_velocity(self, in_model_frame: bool):
        s = self._state
        v = np.array([s.vx, s.vy])
        if in_model_frame:
            c, n = math.cos(s.psi), math.sin(s.psi)
            v = np.array([[c, n], [-n, c]]) @ v
        return v, s.dpsi

    def set_velocity(self, vel, omega: float, in_model_frame: bool):
        s = self._state
        if in_model_frame:
            c, n = math.cos(s.psi), math.sin(s.psi)
            vel = np.array([[c, -n], [n, c]]) @ np.asarray(vel)
        s.vx, s.vy, s.dpsi = float(vel[0]), float(vel[1]), float(omega)

    def get_mesh(self):
        return {ImpactLocation("everywhere"): self.get_footprint()}

    @property
    def model_geometry(self):
        return self.geo

    @property
    def model_type(self):
        return ModelType("toy")

    @property
    def model_params(self):
        return self._params

    def get_extra_collision_friction_acc(self):
        return 0.0, 0.0, 0.0


# ---------------------------------------------------------------------------------- all bodies
REAL_KINDS = [
    "car", "truck", "bike", "moto", "cardyn", "truckdyn", "bikedyn", "ped", "spacecraft", "spaceship", "rocket",
    "diff", "dynobs",
]
NX = dict(car=5, truck=5, bike=5, moto=5, cardyn=7, truckdyn=7, bikedyn=7, ped=6, spacecraft=6, spaceship=8, rocket=8,
          diff=3, dynobs=6, toy=6)
NU = dict(car=2, truck=2, bike=2, moto=2, cardyn=2, truckdyn=2, bikedyn=2, ped=2, spacecraft=2, spaceship=2, rocket=3,
          diff=2, dynobs=3, toy=3)
COMMAND_SCALE = dict(
    car=(5, 0.5), truck=(4, 0.5), bike=(3, 0.5), moto=(3, 0.5), cardyn=(5, 0.5), truckdyn=(4, 0.5), bikedyn=(3, 0.5),
    ped=(3, 3), spacecraft=(1, 1), spaceship=(3, 0.7), rocket=(2, 2, 0.7), diff=(5, 5), dynobs=(3, 3, 1), toy=(2, 2, 1),
)


def _classes(kind: str):
    if kind in ("car", "truck", "bike", "moto"):
        from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState

        return VehicleState, VehicleCommands
    if kind in ("cardyn", "truckdyn", "bikedyn"):
        from dg_commons.sim.models.vehicle import VehicleCommands
        from dg_commons.sim.models.vehicle_dynamic import VehicleStateDyn

        return VehicleStateDyn, VehicleCommands
    if kind == "ped":
        from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianState

        return PedestrianState, PedestrianCommands
    if kind == "spacecraft":
        from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftState

        return SpacecraftState, SpacecraftCommands
    if kind == "spaceship":
        from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipState

        return SpaceshipState, SpaceshipCommands
    if kind == "rocket":
        from dg_commons.sim.models.rocket import RocketCommands, RocketState

        return RocketState, RocketCommands
    if kind == "diff":
        from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveState

        return DiffDriveState, DiffDriveCommands
    if kind == "dynobs":
        from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleState

        return DynObstacleState, DynObstacleCommands
    if kind == "toy":
        return ToyState, ToyCommands
    raise ValueError(kind)


STATE_FIELDS = dict(
    car=("x", "y", "psi", "vx", "delta"),
    cardyn=("x", "y", "psi", "vx", "vy", "dpsi", "delta"),
    ped=("x", "y", "psi", "vx", "vy", "dpsi"),
    spacecraft=("x", "y", "psi", "vx", "vy", "dpsi"),
    spaceship=("x", "y", "psi", "vx", "vy", "dpsi", "delta", "m"),
    rocket=("x", "y", "psi", "vx", "vy", "dpsi", "phi", "m"),
    diff=("x", "y", "psi"),
    dynobs=("x", "y", "psi", "vx", "vy", "dpsi"),
    toy=("x", "y", "psi", "vx", "vy", "dpsi"),
)
for _a, _b in (("truck", "car"), ("bike", "car"), ("moto", "car"), ("truckdyn", "cardyn"), ("bikedyn", "cardyn")):
    STATE_FIELDS[_a] = STATE_FIELDS[_b]
COMMAND_FIELDS = dict(
    car=("acc", "ddelta"), ped=("acc", "dpsi"), spacecraft=("acc_left", "acc_right"), spaceship=("thrust", "ddelta"),
    rocket=("F_left", "F_right", "dphi"), diff=("omega_l", "omega_r"), dynobs=("acc_x", "acc_y", "acc_psi"),
    toy=("ax", "ay", "dd"),
)
for _a in ("truck", "bike", "moto", "cardyn", "truckdyn", "bikedyn"):
    COMMAND_FIELDS[_a] = COMMAND_FIELDS["car"]


def make_state(kind: str, x: list):
    X, _ = _classes(kind)
    return X(**dict(zip(STATE_FIELDS[kind], map(float, x))))


def make_command(kind: str, u):
    _, U = _classes(kind)
    return U(**dict(zip(COMMAND_FIELDS[kind], map(float, u))))


def state_tuple(kind_or_none, s) -> tuple:
    """Field values of a state or command object, read field by field (not through its own conversion functions)"""
    names = kind_or_none
    return tuple(float(getattr(s, n)) for n in names)


def fields_of(obj) -> tuple:
    import dataclasses

    return tuple((f.name, getattr(obj, f.name)) for f in dataclasses.fields(obj))


def values_of(obj) -> tuple:
    """All the field values of a state or command: floats as floats, anything else as is"""
    out = []
    for n, v in fields_of(obj):
        try:
            out.append(float(v))
        except (TypeError, ValueError):
            out.append(v)
    return tuple(out)


SIZES = ("w_half", "lf", "lr", "l_r", "l_m", "wheelbase", "wheelradius", "radius", "m", "Iz")


def make_model(m: dict):
    """A body of the given kind; "geo" and "par" replace fields of its default geometry and parameters"""
    model = _default_model(m)
    if not (m.get("geo") or m.get("par")):
        return model
    least = lambda k, v: max(v, 0.05) if k in SIZES else v  # also while minimising
    fix = lambda d: {k: tuple(v) if isinstance(v, list) else least(k, v) for k, v in d.items()}
    g, p = replace(model.model_geometry, **fix(m.get("geo") or {})), replace(model.model_params, **fix(m.get("par") or {}))
    x0 = make_state(m["kind"], m["x0"])
    if m["kind"] in ("cardyn", "truckdyn", "bikedyn"):
        return type(model)(x0, g, p, model.pacejka_front, model.pacejka_rear)
    return type(model)(x0, g, p)


def _default_model(m: dict):
    kind = m["kind"]
    x0 = make_state(kind, m["x0"])
    if kind == "toy":
        geo = ToyGeometry(m=m.get("m", 2.0), Iz=m.get("Iz", 1.0), e=m.get("e", 0.5), color="red",
                          poly=polygon_points(m.get("shape") or {"k": "rect", "l": 2.0, "w": 1.0}))
        return ToyBody(x0, geo, inplace=bool(m.get("inplace")))
    if kind in ("car", "truck", "bike", "moto"):
        from dg_commons.sim.models.vehicle import VehicleModel
        from dg_commons.sim.models.vehicle_structures import VehicleGeometry
        from dg_commons.sim.models.model_structures import MOTORCYCLE
        from dg_commons.sim.models.vehicle_utils import VehicleParameters

        if kind == "moto":
            vg = replace(VehicleGeometry.default_bicycle(), vehicle_type=MOTORCYCLE)
            return VehicleModel(x0, vg, VehicleParameters.default_bicycle())
        return dict(
            car=VehicleModel.default_car, truck=VehicleModel.default_truck, bike=VehicleModel.default_bicycle
        )[kind](x0)
    if kind in ("cardyn", "truckdyn", "bikedyn"):
        from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn as M

        return dict(cardyn=M.default_car, truckdyn=M.default_truck, bikedyn=M.default_bicycle)[kind](x0)
    if kind == "ped":
        from dg_commons.sim.models.pedestrian import PedestrianModel

        return PedestrianModel.default(x0)
    if kind == "spacecraft":
        from dg_commons.sim.models.spacecraft import SpacecraftModel

        return SpacecraftModel.default(x0)
    if kind == "spaceship":
        from dg_commons.sim.models.spaceship import SpaceshipModel

        return SpaceshipModel.default(x0)
    if kind == "rocket":
        from dg_commons.sim.models.rocket import RocketModel

        return RocketModel.default(x0)
    if kind == "diff":
        from dg_commons.sim.models.diff_drive import DiffDriveModel

        return DiffDriveModel.default(x0)
    if kind == "dynobs":
        from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry
        from dg_commons.sim.models.obstacles_dyn import DynObstacleModel

        shape = Polygon(polygon_points(m.get("shape") or {"k": "rect", "l": 2.0, "w": 1.0}))
        og = ObstacleGeometry(m=m.get("m", 5.0), Iz=m.get("Iz", 10.0), e=m.get("e", 0.5))
        op = DynObstacleParameters(vx_limits=tuple(m.get("vlim", (-10, 10))), acc_limits=tuple(m.get("alim", (-10, 10))))
        return DynObstacleModel(x0, shape, og, op)
    raise ValueError(kind)


_DEFAULTS: dict = {}


def defaults_of(kind: str):
    if kind not in _DEFAULTS:
        m = _default_model(dict(kind=kind, x0=[0.0] * len(STATE_FIELDS[kind])))
        _DEFAULTS[kind] = (m.model_geometry, m.model_params)
    return _DEFAULTS[kind]


def vary(rng, kind: str) -> dict:
    """Other than default geometry and parameters: {"geo": ..., "par": ...}"""
    if kind in ("dynobs", "toy"):
        return {}
    g, p = defaults_of(kind)
    geo, par = {}, {}

    def scale(v, lo=0.6, hi=1.7):
        return [round(a * rng.r(lo, hi), 4) for a in v] if isinstance(v, tuple) else round(v * rng.r(lo, hi), 4)

    sizes = dict(
        ped=(), diff=("wheelbase", "wheelradius", "radius"), spacecraft=("w_half",), spaceship=("l_r", "w_half"),
        rocket=("l_m", "w_half"),
    ).get(kind, ("w_half", "lf", "lr", "c_drag", "a_drag", "c_rr_f", "c_rr_r", "h_cog"))
    limits = dict(
        ped=("dtheta_max",), diff=("omega_limits",), spacecraft=("dpsi_limits",),
        spaceship=("m_v", "C_T", "thrust_limits", "delta_limits", "ddelta_limits"),
        rocket=("m_v", "C_T", "F_limits", "delta_limits", "ddelta_limits"),
    ).get(kind, ("delta_max", "ddelta_max"))
    for n in sizes + ("m", "Iz", "e"):
        if rng.flip(0.6):
            geo[n] = min(1.0, scale(getattr(g, n))) if n == "e" else scale(getattr(g, n))
    for n in limits + ("acc_limits",) + (() if kind in ("spacecraft", "spaceship", "rocket", "diff") else ("vx_limits",)):
        if rng.flip(0.4):
            par[n] = scale(getattr(p, n), hi=1.25 if n == "delta_max" else 1.7)  # short of a right angle
    if kind == "diff" and geo.get("radius"):
        geo["radius"] = max(geo["radius"], geo.get("wheelbase", g.wheelbase) / 2 + 0.05)
    return dict(geo=geo, par=par)
