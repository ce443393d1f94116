"""The build of commonroad_dc here cannot triangulate polygons: a constructor that does it in Python (ray tracing stays real)"""


def ears(pts: list) -> list:
    """Triangles of a simple polygon (ear clipping)"""
    n = len(pts)
    area = sum(pts[i][0] * pts[(i + 1) % n][1] - pts[(i + 1) % n][0] * pts[i][1] for i in range(n))
    idx = list(range(n)) if area > 0 else list(range(n))[::-1]
    out = []

    def cross(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    while len(idx) > 3:
        for k in range(len(idx)):
            i, j, l = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            a, b, c = pts[i], pts[j], pts[l]
            if cross(a, b, c) <= 0:
                continue
            if any(cross(a, b, pts[q]) >= 0 and cross(b, c, pts[q]) >= 0 and cross(c, a, pts[q]) >= 0
                   for q in idx if q not in (i, j, l)):
                continue
            out.append((a, b, c))
            idx.pop(k)
            break
        else:
            # degenerate: drop a vertex on a straight edge
            idx.pop()
    out.append(tuple(pts[i] for i in idx))
    return out


def install() -> None:
    from commonroad_dc import pycrcc

    real = pycrcc.Polygon
    if real.__module__ == __name__:
        return

    class Polygon(real):
        def __init__(self, outer, holes=(), *a):
            pts = [(float(p[0]), float(p[1])) for p in outer]
            mesh = [pycrcc.Triangle(*t[0], *t[1], *t[2]) for t in ears(pts)]
            super().__init__([list(p) for p in pts], [], mesh)

    Polygon.__module__ = __name__
    pycrcc.Polygon = Polygon
