"""Tile geometry, written out independently of the code under analysis (half-tile units, y down)."""

# corners in the order top-left, top-right, bottom-right, bottom-left
CORNERS = {
    0: ((0, 0), (2, 0), (2, 2), (0, 2)),
    1: ((0, 0), (2, 1), (2, 2), (0, 2)),
    2: ((0, 1), (2, 2), (2, 2), (0, 2)),
    3: ((0, 0), (2, 0), (1, 2), (0, 2)),
    4: ((0, 0), (1, 0), (0, 2), (0, 2)),
    5: ((0, 0), (2, 0), (2, 2), (0, 1)),
    6: ((0, 0), (2, 0), (2, 1), (0, 0)),
    7: ((1, 0), (2, 0), (2, 2), (0, 2)),
    8: ((2, 0), (2, 0), (2, 2), (1, 2)),
    9: ((0, 1), (2, 0), (2, 2), (0, 2)),
    10: ((0, 2), (2, 1), (2, 2), (0, 2)),
    11: ((0, 0), (2, 0), (2, 2), (1, 2)),
    12: ((1, 0), (2, 0), (2, 2), (2, 2)),
    13: ((0, 0), (2, 0), (2, 1), (0, 2)),
    14: ((0, 0), (2, 0), (2, 0), (0, 1)),
    15: ((0, 0), (1, 0), (2, 2), (0, 2)),
    16: ((0, 0), (0, 0), (1, 2), (0, 2)),
    17: ((0, 0), (2, 2), (2, 2), (0, 2)),
    18: ((0, 0), (2, 0), (2, 0), (0, 2)),
    19: ((0, 0), (2, 0), (2, 2), (0, 0)),
    20: ((0, 2), (2, 0), (2, 2), (0, 2)),
}

# position of side TOP, BOTTOM, LEFT, RIGHT in clockwise order
CLOCKWISE = (0, 2, 3, 1)
TOP, BOTTOM, LEFT, RIGHT = 0, 1, 2, 3
SIDE_NAMES = ("top", "bottom", "left", "right")


def edge_of(shape, side):
    """(from, to) of a side, the tile on the right hand, or None when the shape has no such side
    (a border stretch of half a tile is not a side)"""
    c = CORNERS[int(shape)]
    k = CLOCKWISE[side]
    a, b = c[k], c[(k + 1) % 4]
    return None if abs(a[0] - b[0]) + abs(a[1] - b[1]) < 2 else (a, b)


def edges_of(shape):
    return {side: edge_of(shape, side) for side in range(4) if edge_of(shape, side) is not None}


def on_border(edge):
    """which border of the square an edge lies on, or None for an interior one"""
    (ax, ay), (bx, by) = edge
    if ay == by == 0:
        return TOP
    if ay == by == 2:
        return BOTTOM
    if ax == bx == 0:
        return LEFT
    if ax == bx == 2:
        return RIGHT
    return None


def flush(edge, side):
    """does the edge fill the whole border on its side"""
    return on_border(edge) == side and abs(edge[0][0] - edge[1][0]) + abs(edge[0][1] - edge[1][1]) == 2


def shape_with(points):
    """the shape whose corner set is the given one"""
    want = set(points)
    for k, c in CORNERS.items():
        if set(c) == want:
            return k
    return None
