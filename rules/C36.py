"""C36: the public geometry tables describe the documented shapes."""

from dustmaker.tile import SHAPE_ORDERED_SIDES, SHAPE_VERTEXES, SIDE_CLOCKWISE_INDEX, SPRITE_SET_DUSTBLOCK_TILE, TileShape, TileSide
from rules.geometry import CORNERS, SIDE_NAMES, edge_of, edges_of

RULE = (
    "The tables are evaluated from the source and compared, for every shape and side, with the geometry the documentation "
    "states: convex outline in clockwise order inside the tile square, area by kind, big and small slants fitting together, "
    "sides by name, and the documented order of the sides."
)


def kind(shape):
    n = TileShape(shape).name
    return n.split("_")[0]


@cases(shape=list(TileShape))
def case_vertexes(shape):
    v = SHAPE_VERTEXES[shape]
    require(len(v) == 4, "four corners")
    for i in range(4):
        x, y = v[i]
        require(x in (0, 1, 2) and y in (0, 1, 2), "corner on the half-tile grid", i, x, y)
        require((x, y) == CORNERS[int(shape)][i], "corner of the shape", i, (x, y))
    # twice the area by the shoelace formula, y down: clockwise is positive
    area = 0
    for i in range(4):
        (ax, ay), (bx, by) = v[i], v[(i + 1) % 4]
        area += ax * by - ay * bx
    require(area == {"FULL": 8, "BIG": 6, "SMALL": 2, "HALF": 4}[kind(shape)], "clockwise outline with the area of its kind", area)
    for i in range(4):
        (ax, ay), (bx, by), (cx, cy) = v[i], v[(i + 1) % 4], v[(i + 2) % 4]
        require((bx - ax) * (cy - by) - (by - ay) * (cx - bx) >= 0, "convex outline", i)


@cases(side=list(TileSide))
def case_clockwise_index(side):
    k = SIDE_CLOCKWISE_INDEX[side]
    require(k == {"TOP": 0, "RIGHT": 1, "BOTTOM": 2, "LEFT": 3}[side.name], "clockwise position of a side", side, k)
    full = SHAPE_VERTEXES[TileShape.FULL]
    (ax, ay), (bx, by) = full[k], full[(k + 1) % 4]
    mid = ((ax + bx) / 2, (ay + by) / 2)
    require(mid == {"TOP": (1, 0), "RIGHT": (2, 1), "BOTTOM": (1, 2), "LEFT": (0, 1)}[side.name], "the side of a full tile lies where its name says", mid)


def edge(shape, side):
    k = SIDE_CLOCKWISE_INDEX[side]
    return SHAPE_VERTEXES[shape][k], SHAPE_VERTEXES[shape][(k + 1) % 4]


@cases(shape=list(TileShape))
def case_sides(shape):
    """which sides a shape has, and in which order they are listed"""
    sides = SHAPE_ORDERED_SIDES[shape]
    require(len(set(sides)) == len(sides), "no side twice")
    require(set(int(x) for x in sides) == set(edges_of(shape)), "exactly the sides of the shape", sides)
    for x in sides:
        require(isinstance(x, TileSide), "sides are TileSide values")
    # how an edge runs: flat edges lie on the border of the square
    def diagonal(side):
        (ax, ay), (bx, by) = edge(shape, side)
        return ax != bx and ay != by

    def clock(side):
        return SIDE_CLOCKWISE_INDEX[side]

    k = kind(shape)
    if k == "FULL":
        require([x.name for x in sides] == ["TOP", "RIGHT", "BOTTOM", "LEFT"], "full tile: clockwise from the top")
        return
    require(diagonal(sides[0]), "the diagonal comes first")
    for x in sides[1:]:
        require(not diagonal(x), "the other sides are flat")
    if k == "HALF":
        require(len(sides) == 3, "three sides")
        steps = [(clock(sides[i + 1]) - clock(sides[i])) % 4 for i in range(2)]
        require(sum(steps) < 4, "clockwise", steps)
    elif k == "SMALL":
        require(len(sides) == 2, "two sides")
        require((clock(sides[1]) - clock(sides[0])) % 4 == 2, "the side opposite the diagonal")
    else:
        require(len(sides) == 3, "three sides")
        require((clock(sides[1]) - clock(sides[0])) % 4 == 2, "then the opposite side")
        small = SHAPE_ORDERED_SIDES[shape + 1]
        require(sides[2] not in small, "last the flat side the small slant lacks")
        turn = (clock(sides[2]) - clock(sides[1])) % 4
        require(turn == (1 if shape <= TileShape.SMALL_4 else 3), "clockwise for the first four slants, counter-clockwise for the others", turn)


@cases(n=list(range(1, 9)))
def case_slants_fit(n):
    """the diagonal of the small slant continues the one of the big slant in the neighbouring square"""
    big, small = TileShape["BIG_" + str(n)], TileShape["SMALL_" + str(n)]
    a, b = edge(big, SHAPE_ORDERED_SIDES[big][0])
    c, d = edge(small, SHAPE_ORDERED_SIDES[small][0])
    run = (b[0] - a[0], b[1] - a[1])
    require(run == (d[0] - c[0], d[1] - c[1]), "same slope", run)
    require(abs(run[0] * run[1]) == 2, "two to one slope", run)
    fits = False
    for p, q in ((b, c), (d, a)):
        dx, dy = p[0] - q[0], p[1] - q[1]
        fits = fits or (abs(dx) + abs(dy) == 2 and (dx == 0 or dy == 0))
    require(fits, "the two diagonals join end to end in neighbouring squares")


@cases(n=[1])
def case_quarter_turns(n):
    """slants 1 to 4 are quarter turns clockwise of each other, 5 to 8 their mirror images, halves A to D quarter turns"""

    def turned(shape):
        return set((2 - y, x) for x, y in SHAPE_VERTEXES[shape])

    def mirrored(shape):
        return set((2 - x, y) for x, y in SHAPE_VERTEXES[shape])

    for size in ("BIG_", "SMALL_"):
        for i in range(1, 4):
            require(turned(TileShape[size + str(i)]) == set(SHAPE_VERTEXES[TileShape[size + str(i + 1)]]), "quarter turn", size, i)
        for i in range(1, 5):
            require(mirrored(TileShape[size + str(i)]) == set(SHAPE_VERTEXES[TileShape[size + str(i + 4)]]), "mirror image", size, i)
    for a, b in ("AB", "BC", "CD", "DA"):
        require(turned(TileShape["HALF_" + a]) == set(SHAPE_VERTEXES[TileShape["HALF_" + b]]), "quarter turn of a half", a)


@cases(n=[1])
def case_sizes(n):
    require(len(SHAPE_VERTEXES) == 21 and len(SHAPE_ORDERED_SIDES) == 21 and len(SIDE_CLOCKWISE_INDEX) == 4 and len(SPRITE_SET_DUSTBLOCK_TILE) == 8, "one entry per shape, side and sprite set")
    require(list(SPRITE_SET_DUSTBLOCK_TILE) == [-1, 21, 13, 6, 9, 2, -1, -1], "dustblock index per sprite set", list(SPRITE_SET_DUSTBLOCK_TILE))
