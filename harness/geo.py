"""Independent planar geometry used as oracle (exact definitions, plain floats)."""
import math


def corners(cx, cy, h, l, w):
    c, s = math.cos(h), math.sin(h)
    return [(cx + c * x - s * y, cy + s * x + c * y) for x, y in ((-l / 2, -w / 2), (l / 2, -w / 2), (l / 2, w / 2), (-l / 2, w / 2))]


def area(p):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1])) / 2 if len(p) > 2 else 0.0


def clip(p, q):
    """intersection of two counter-clockwise convex polygons (half-plane clipping), shifted to p's centre for accuracy"""
    ox, oy = p[0]
    p = [(x - ox, y - oy) for x, y in p]
    q = [(x - ox, y - oy) for x, y in q]
    out = p
    for (ax, ay), (bx, by) in zip(q, q[1:] + q[:1]):
        if not out:
            break
        side = [(bx - ax) * (y - ay) - (by - ay) * (x - ax) for x, y in out]
        nxt = []
        for k in range(len(out)):
            a, b, sa, sb = out[k], out[(k + 1) % len(out)], side[k], side[(k + 1) % len(out)]
            if sa >= 0:
                nxt.append(a)
            if (sa > 0 and sb < 0) or (sa < 0 and sb > 0):
                t = sa / (sa - sb)
                nxt.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
        out = nxt
    return out


def inter(p, q):
    return max(0.0, area(clip(p, q)))


def separated(p, q, gap=0.0):
    """True if some edge direction separates the convex polygons by more than gap"""
    for r in (p, q):
        for (ax, ay), (bx, by) in zip(r, r[1:] + r[:1]):
            n = math.hypot(by - ay, ax - bx)
            if n == 0:
                continue
            nx, ny = (by - ay) / n, (ax - bx) / n
            pp = [x * nx + y * ny for x, y in p]
            qq = [x * nx + y * ny for x, y in q]
            if min(qq) - max(pp) > gap or min(pp) - max(qq) > gap:
                return True
    return False


def convex_polygon(r, n=None, radius=None, cx=0.0, cy=0.0):
    """random convex counter-clockwise polygon"""
    n = n or r.randint(3, 8)
    radius = radius or r.uniform(.3, 8)
    while True:
        a = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
        if min((y - x) for x, y in zip(a, a[1:] + [a[0] + 2 * math.pi])) > 0.05:
            break
    sx, sy, t = r.uniform(.3, 1), r.uniform(.3, 1), r.uniform(0, 6.3)
    pts = [(radius * sx * math.cos(x), radius * sy * math.sin(x)) for x in a]
    return [(cx + math.cos(t) * x - math.sin(t) * y, cy + math.sin(t) * x + math.cos(t) * y) for x, y in pts]
