"""Lanes made of straight and circular pieces"""
import math

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint


def lane_points(l: dict) -> list[tuple[float, float, float]]:
    """p: start, th: heading, segs: [[length, curvature], ...], ds: distance of the control points"""
    x, y = l["p"]
    th = l["th"]
    pts = [(x, y, th)]
    for length, kappa in l["segs"]:
        n = max(1, int(round(length / l["ds"])))
        h = length / n
        for _ in range(n):
            if abs(kappa) < 1e-9:
                x, y = x + h * math.cos(th), y + h * math.sin(th)
            else:
                th2 = th + h * kappa
                x += (math.sin(th2) - math.sin(th)) / kappa
                y -= (math.cos(th2) - math.cos(th)) / kappa
                th = th2
            pts.append((x, y, th))
    return pts


def make_lane(l: dict) -> DgLanelet:
    return DgLanelet([LaneCtrPoint(SE2Transform([x, y], th), l.get("r", 2.0)) for x, y, th in lane_points(l)])


def distance_to_lane(pts, x: float, y: float) -> tuple[float, float]:
    """Distance to the polyline through the control points and arc length of the closest point"""
    best, along, s = float("inf"), 0.0, 0.0
    for (x0, y0, _), (x1, y1, _) in zip(pts, pts[1:]):
        dx, dy = x1 - x0, y1 - y0
        l = math.hypot(dx, dy)
        if l <= 0:
            continue
        a = max(0.0, min(1.0, ((x - x0) * dx + (y - y0) * dy) / (l * l)))
        d = math.hypot(x - x0 - a * dx, y - y0 - a * dy)
        if d < best:
            best, along = d, s + a * l
        s += l
    return best, along


def gen_lane(rng, length: float, kmax: float = 0.03, pieces: int = 4, p=(0.0, 0.0), th=None) -> dict:
    segs = []
    left = length
    while left > 1 and len(segs) < pieces:
        d = min(left, rng.r(length / pieces * 0.6, length / pieces * 1.6))
        segs.append([round(d, 2), rng.pick([0.0, rng.r(-kmax, kmax, 4)])])
        left -= d
    if left > 1:
        segs.append([round(left, 2), 0.0])
    return dict(p=[round(v, 3) for v in p], th=rng.r(-3, 3) if th is None else th, segs=segs,
                ds=rng.pick([0.5, 1.0, 2.0, 4.0]), r=rng.r(1.5, 3))
