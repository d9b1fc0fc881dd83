"""C01: the returned assignment is a permutation of maximum total weight (compared with an independent solver)."""
from h import I, ii

RULE = 'integer weight matrices: small ones with many ties (exhaustive optimum), larger ones against an independent shortest-augmenting-path solver'


def best(n, e):
    """maximum total weight, by successive shortest paths on negated weights"""
    INF = 1 << 60
    u, v, p, way = [0] * (n + 1), [0] * (n + 1), [0] * (n + 1), [0] * (n + 1)
    for i in range(1, n + 1):
        p[0] = i
        j0 = 0
        minv, used = [INF] * (n + 1), [False] * (n + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], INF, 0
            row = (i0 - 1) * n - 1
            for j in range(1, n + 1):
                if not used[j]:
                    cur = -e[row + j] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(n + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    return sum(e[(p[j] - 1) * n + j - 1] for j in range(1, n + 1))


def matrix(r, n):
    k = r.randrange(9)
    hi = r.choice([1, 2, 3, 5, 10, 1000, 1 << 20])
    if k < 4:
        return [r.randint(0, hi) for _ in range(n * n)]
    if k == 4:      # sparse: mostly zero
        return [r.randint(1, hi) if r.random() < .3 else 0 for _ in range(n * n)]
    if k == 5:      # zero rows / columns
        e = [r.randint(0, hi) for _ in range(n * n)]
        for _ in range(r.randint(1, n)):
            i = r.randrange(n)
            for j in range(n):
                if r.random() < .5:
                    e[i * n + j] = 0
                else:
                    e[j * n + i] = 0
        return e
    if k == 6:      # rank-one (many equal slacks)
        a = [r.randint(0, 30) for _ in range(n)]
        b = [r.randint(0, 30) for _ in range(n)]
        return [a[i] * b[j] for i in range(n) for j in range(n)]
    if k == 7:      # every row prefers the same columns: long augmenting paths
        return [max(0, 50 - 3 * j + r.randint(0, 2) - (i * j) % 7) for i in range(n) for j in range(n)]
    return [i + j for i in range(n) for j in range(n)]


def run(H):
    r = H.r

    def one(n):
        e = matrix(r, n)
        H.case(lambda: dict(n=n, edge=e), key=tuple(e))
        rep = [ii(x) for x in H.call('hungarian', n, I(e))]
        want = best(n, e)
        for nm, p in (('three-argument form', rep[0]), ('five-argument form', rep[1])):
            if H.check('permutation', sorted(p) == list(range(n)), lambda: '%s returned %s, not a permutation' % (nm, p)):
                got = sum(e[i * n + p[i]] for i in range(n))
                H.check('optimal', got == want, lambda: '%s: total weight %d of %s, the optimum is %d' % (nm, got, p, want))
        lx, ly = rep[2], rep[3]
        H.check('labels', all(lx[i] + ly[j] >= e[i * n + j] for i in range(n) for j in range(n)), lambda: 'labels %s %s are not feasible' % (lx, ly))
        H.check('labels-sum', sum(lx) + sum(ly) == want, lambda: 'labels sum to %d, optimum %d' % (sum(lx) + sum(ly), want))

    def small():
        one(r.randint(1, 5))

    def mid():
        one(r.randint(5, 12))

    def large():
        one(r.randint(12, 40))
    H.phases((4, small), (4, mid), (2, large))
