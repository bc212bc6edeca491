"""C19: transformation matrices compose like the maps they stand for."""

import math

from dustmaker.transform import TxMatrix

RULE = (
    "Matrix entries and points are abstract: every entry two-valued at once (a multilinear identity is decided by its "
    "values on a two-valued grid) and single entries as wide words with the others fixed; the result of composition, "
    "scaling, translation and sampling must be the same linear form as applying the maps one after the other."
)

GRID = [(0, 1), (-1, 2), (3, -5)]


def entry(n, grid):
    """two-valued abstract entry"""
    return grid[0] + (grid[1] - grid[0]) * u(n, 1)


def mat(n, grid, spots):
    """matrix with abstract entries at the given spots"""
    rows = []
    for i in range(2):
        row = []
        for j in range(3):
            row.append(entry(n + str(i) + str(j), grid) if (i, j) in spots else [[2, -3, 7], [5, 1, -4]][i][j])
        rows.append(tuple(row))
    return TxMatrix((rows[0], rows[1], (0, 0, 1)))


def apply(a, p):
    """the map of a matrix, from its entries"""
    return (a[0][0] * p[0] + a[0][1] * p[1] + a[0][2], a[1][0] * p[0] + a[1][1] * p[1] + a[1][2])


def same(p, q, what):
    require(len(p) == 2, what)
    require(p[0] == q[0], what + ": x", q[0], p[0])
    require(p[1] == q[1], what + ": y", q[1], p[1])


ALL = [(i, j) for i in range(2) for j in range(3)]
HALVES = [ALL[:3], ALL[3:], [(0, 0), (1, 1), (0, 2)], [(0, 1), (1, 0), (1, 2)]]


@cases(grid=GRID, sa=HALVES, sb=HALVES)
def case_compose(grid, sa, sb):
    a, b = mat("a", grid, sa), mat("b", grid, sb)
    c = a * b
    require(type(c) is TxMatrix, "the product is a matrix")
    p = (entry("x", grid), entry("y", grid))
    same(apply(c, p), apply(a, apply(b, p)), "product applies the right matrix first")
    same(c.sample(p[0], p[1]), a.sample(*b.sample(p[0], p[1])), "sampling the product")


@cases(spot=ALL, side=["a", "b"], base=[0, 1])
def case_compose_wide(spot, side, base):
    """one entry over a wide range, float or int"""
    w = s("w", 30) if base == 0 else dyadic("w", 7, 2, True)
    rows = [[2, -1, 11], [1, 4, -6]]
    other = TxMatrix(((2, -1, -1), (-4, 1, 9), (0, 0, 1)))
    rows[spot[0]][spot[1]] = w
    mine = TxMatrix((tuple(rows[0]), tuple(rows[1]), (0, 0, 1)))
    a, b = (mine, other) if side == "a" else (other, mine)
    c = a * b
    for p in ((0, 0), (1, 0), (0, 1), (7, -3)):
        same(c.sample(p[0], p[1]), a.sample(*b.sample(p[0], p[1])), "sampling the product")


@cases(axis=[0, 1])
def case_sample_any_point(axis):
    """an abstract point"""
    w = s("w", 30)
    p = (w, 13) if axis == 0 else (-4, w)
    a = TxMatrix(((2, 5, -1), (-3, 1, 9), (0, 0, 1)))
    b = TxMatrix(((0, -1, 100), (1, 0, -7), (0, 0, 1)))
    same(a.sample(p[0], p[1]), (2 * p[0] + 5 * p[1] - 1, -3 * p[0] + p[1] + 9), "sample")
    same((a * b).sample(p[0], p[1]), a.sample(*b.sample(p[0], p[1])), "sampling the product")
    same((b * a).sample(p[0], p[1]), b.sample(*a.sample(p[0], p[1])), "sampling the product")
    same(a.sample(p[0], p[1], with_offset=False), (2 * p[0] + 5 * p[1], -3 * p[0] + p[1]), "sampling without offset")


@cases(grid=GRID)
def case_sample(grid):
    a = mat("a", grid, ALL)
    p = (entry("x", grid), entry("y", grid))
    same(a.sample(p[0], p[1]), apply(a, p), "sample")
    same(a.sample(p[0], p[1], with_offset=True), apply(a, p), "sample")
    same(a.sample(p[0], p[1], with_offset=False), (a[0][0] * p[0] + a[0][1] * p[1], a[1][0] * p[0] + a[1][1] * p[1]), "sampling without offset")


@cases(grid=GRID, wide=[False, True])
def case_translate(grid, wide):
    a = mat("a", grid, ALL)
    dx, dy = (s("dx", 24), s("dy", 20)) if wide else (entry("dx", grid), entry("dy", grid))
    t = a.translate(dx, dy)
    require(type(t) is TxMatrix, "translate gives a matrix")
    for i in range(2):
        for j in range(2):
            require(t[i][j] == a[i][j], "translate keeps the linear part")
    p = (3, -8)
    q = a.sample(p[0], p[1])
    same(t.sample(p[0], p[1]), (q[0] + dx, q[1] + dy), "translate adds an offset afterwards")
    u2 = TxMatrix.IDENTITY.translate(dx, dy) * a
    same(u2.sample(p[0], p[1]), t.sample(p[0], p[1]), "translate is the product with a translation")


@cases(grid=GRID, k=[0, 1, 2, 3, -1, 0.5, -2.5, 48])
def case_scalar(grid, k):
    a = mat("a", grid, ALL)
    for m2 in (a * k, k * a):
        require(type(m2) is TxMatrix, "scaling gives a matrix")
        p = (entry("x", grid), entry("y", grid))
        q = apply(a, p)
        same(m2.sample(p[0], p[1]), (q[0] * k, q[1] * k), "scalar scales the result")


@cases(side=[0, 1])
def case_scalar_wide(side):
    k = s("k", 16)
    a = TxMatrix(((2, 5, -1), (-3, 1, 9), (0, 0, 1)))
    m2 = a * k if side == 0 else k * a
    for p in ((0, 0), (1, 0), (0, 1)):
        q = apply(a, p)
        same(m2.sample(p[0], p[1]), (q[0] * k, q[1] * k), "scalar scales the result")


CONSTANTS = {
    "identity": (TxMatrix.IDENTITY, lambda x, y: (x, y), 1),
    "hflip": (TxMatrix.HFLIP, lambda x, y: (-x, y), -1),
    "vflip": (TxMatrix.VFLIP, lambda x, y: (x, -y), -1),
    "rotate0": (TxMatrix.ROTATE[0], lambda x, y: (x, y), 1),
    # y points down: a clockwise quarter turn takes right to down and down to left
    "rotate1": (TxMatrix.ROTATE[1], lambda x, y: (-y, x), 1),
    "rotate2": (TxMatrix.ROTATE[2], lambda x, y: (-x, -y), 1),
    "rotate3": (TxMatrix.ROTATE[3], lambda x, y: (y, -x), 1),
}


@cases(name=list(CONSTANTS))
def case_constants(name):
    c, f, det = CONSTANTS[name]
    x, y = s("x", 24), s("y", 24)
    same(c.sample(x, y), f(x, y), name)
    same(c.sample(x, y, with_offset=False), f(x, y), name + " without offset")
    require(c.determinant == det, name + ": determinant", c.determinant)
    require(c.flipped == (det < 0), name + ": flipped")
    require(c.scale == 1, name + ": scale", c.scale)
    require(len(TxMatrix.ROTATE) == 4, "four rotations")


@cases(a=list(CONSTANTS), b=list(CONSTANTS))
def case_constant_products(a, b):
    ca, fa, da = CONSTANTS[a]
    cb, fb, db = CONSTANTS[b]
    c = ca * cb
    x, y = s("x", 24), s("y", 24)
    q = fb(x, y)
    same(c.sample(x, y), fa(q[0], q[1]), a + " after " + b)
    require(c.determinant == da * db, "determinant of a product")
    require(c.flipped == (da * db < 0), "flipped of a product")


@cases(grid=GRID)
def case_determinant(grid):
    a = mat("a", grid, ALL)
    det = a[0][0] * a[1][1] - a[0][1] * a[1][0]
    require(a.determinant == det, "determinant", a.determinant, det)
    require(a.flipped == (det < 0), "flipped", a.flipped, det)


@cases(k=[2.0**-40, 2.0**-20, 2.0**-12, 2.0**-5, 2.0**9, 2.0**20, 2.0**40], name=list(CONSTANTS), shape=[(1, 1), (1, 3), (0.5, -8), (-1, -1)])
def case_tiny_and_huge(k, name, shape):
    """whatever the size of the map"""
    base = CONSTANTS[name][0]
    a = TxMatrix(((base[0][0] * k * shape[0], base[0][1] * k * shape[0], 3), (base[1][0] * k * shape[1], base[1][1] * k * shape[1], -4), (0, 0, 1)))
    det = base.determinant * k * k * shape[0] * shape[1]
    require(a.determinant == det, "determinant", a.determinant, det)
    require(a.flipped == (det < 0), "flipped", a.flipped)
    require(abs(a.scale * a.scale / abs(det) - 1) < 1e-9, "scale", a.scale)
    m = base * k
    require(m.flipped == (base.determinant < 0), "flipped of a scaled map")
    require(m.determinant == base.determinant * k * k, "determinant of a scaled map")


@cases(xx=[-2, -1, 0, 1, 3], xy=[-3, 0, 1], yx=[-2, 0, 1], yy=[-1, 0, 1, 2, 2.5])
def case_scale(xx, xy, yx, yy):
    a = TxMatrix(((xx, xy, 17), (yx, yy, -9), (0, 0, 1)))
    det = xx * yy - xy * yx
    require(abs(a.scale * a.scale - abs(det)) < 1e-9, "scale", a.scale, det)
    require(a.scale >= 0, "scale is not negative")
    require(a.determinant == det, "determinant")
    require(a.flipped == (det < 0), "flipped")


@cases(rows=[((1, 0, 0), (0, 1, 0)), ((1, 0, 0), (0, 1, 0), (0, 0, 2)), ((1, 0, 0), (0, 1, 0), (1, 0, 1)), ((1, 0, 0), (0, 1), (0, 0, 1)), ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 1)), ((1, 0, "a"), (0, 1, 0), (0, 0, 1))])
def case_not_affine(rows):
    """only affine 3x3 matrices can be built"""
    try:
        TxMatrix(rows)
    except Exception:
        return
    fail("a matrix that is not affine was built")
