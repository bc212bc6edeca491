"""C21: transforming a tile is the exact geometric action on shape and edges."""

import math

from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet
from dustmaker.transform import TxMatrix
from rules.common import any_tile, edge_same, fill_edge, tile_same
from rules.geometry import CORNERS, edges_of, shape_with

RULE = (
    "For all 21 shapes, all eight flips/rotations and a range of uniform scales and translations, a tile with abstract "
    "edge data, sprite and flags is traced through Tile.transform; shape and the place, order and sign of every edge datum "
    "are compared with the image computed from an independent vertex table."
)

R, H, V, I = TxMatrix.ROTATE, TxMatrix.HFLIP, TxMatrix.VFLIP, TxMatrix.IDENTITY
MAPS = {
    "e": (I, lambda x, y: (x, y), False, "e"),
    "r": (R[1], lambda x, y: (-y, x), False, "rrr"),
    "rr": (R[2], lambda x, y: (-x, -y), False, "rr"),
    "rrr": (R[3], lambda x, y: (y, -x), False, "r"),
    "h": (H, lambda x, y: (-x, y), True, "h"),
    "v": (V, lambda x, y: (x, -y), True, "v"),
    "hr": (R[1] * H, lambda x, y: (-y, -x), True, "hr"),
    "vr": (R[1] * V, lambda x, y: (y, x), True, "vr"),
}
SCALES = [1, 2, 3, 5, 0.5, 7.25, 48] + ([0.125, 4, 6, 7, 9, 11, 13, 16, 17, 33, 64, 100, 1000] if THOROUGH else [])
SETS = [TileSpriteSet.FOREST, TileSpriteSet.CITY, TileSpriteSet.MANSION, TileSpriteSet.NEXUS]


def image(name, p):
    x, y = MAPS[name][1](p[0] - 1, p[1] - 1)
    return (x + 1, y + 1)


def make(shape, full):
    """abstract data on the sides the shape has; on the others only if full"""
    t = Tile(shape, tile_flags=u("flags", 3), sprite_set=TileSpriteSet.LABORATORY, sprite_tile=u("tile", 8), sprite_palette=u("pal", 4))
    for side in range(4):
        if full or side in edges_of(shape):
            fill_edge(t.edge_data[side], "e" + str(side), SETS[side])
    return t


def expect(o, name):
    """(shape, side -> edge) of the image of tile o"""
    flipped = MAPS[name][2]
    shape = shape_with([image(name, p) for p in CORNERS[int(o.shape)]])
    where = {}
    for side, (a, b) in edges_of(shape).items():
        where[(a, b)] = side
    out = {}
    for side, (a, b) in edges_of(o.shape).items():
        a, b = image(name, a), image(name, b)
        if flipped:
            a, b = b, a
        e = clone(o.edge_data[side])
        if flipped:
            e.caps = (e.caps[1], e.caps[0])
            e.filth_caps = (e.filth_caps[1], e.filth_caps[0])
            e.angles = (-e.angles[1], -e.angles[0])
            e.filth_angles = (-e.filth_angles[1], -e.filth_angles[0])
        out[where[(a, b)]] = e
    return shape, out


def check(o, t, name, where):
    shape, edges = expect(o, name)
    require(t.shape == shape, where + ": shape", o.shape, t.shape, shape)
    require(t.shape is TileShape(shape), where + ": shape is a TileShape")
    require(t.tile_flags == o.tile_flags, where + ": flags")
    require(t.sprite_set == o.sprite_set and t.sprite_tile == o.sprite_tile and t.sprite_palette == o.sprite_palette, where + ": sprite")
    require(len(t.edge_data) == 4, where + ": four edges")
    for side, e in edges.items():
        edge_same(e, t.edge_data[side], where + ": side " + str(side))


@cases(shape=list(TileShape), name=list(MAPS), scale=SCALES, off=[(0, 0), (96, -48), (-5.5, 1000)])
def case_transform(shape, name, scale, off):
    t = make(shape, False)
    o = clone(t)
    mat = MAPS[name][0] * scale
    t.transform(mat.translate(off[0], off[1]))
    check(o, t, name, "transform")


NONE = TileSpriteSet.NONE_0
PATTERNS = [
    [NONE, NONE, NONE, NONE],
    [NONE, TileSpriteSet.CITY, NONE, TileSpriteSet.MANSION],
    [TileSpriteSet.TUTORIAL, NONE, TileSpriteSet.NONE_7, NONE],
    [TileSpriteSet.NEXUS, TileSpriteSet.LABORATORY, TileSpriteSet.TUTORIAL, NONE],
]


@cases(shape=list(TileShape), name=list(MAPS), k=range(4))
def case_filth_sets(shape, name, k):
    """directed data moves alike on edges with and without filth, whatever the sprites"""
    t = make(shape, False)
    t.sprite_set = [TileSpriteSet.NONE_0, TileSpriteSet.MANSION, TileSpriteSet.TUTORIAL, TileSpriteSet.NONE_7][k]
    for side in range(4):
        t.edge_data[side].filth_sprite_set = PATTERNS[k][side]
    o = clone(t)
    t.transform(MAPS[name][0])
    check(o, t, name, "transform")


def turned(k):
    """a quarter turn made with sine and cosine: its zeros are only nearly zero"""
    c, s_ = math.cos(k * math.pi / 2), math.sin(k * math.pi / 2)
    return TxMatrix(((c, -s_, 0), (s_, c, 0), (0, 0, 1)))


NOISY = {"e": (0, None), "r": (1, None), "rr": (2, None), "rrr": (3, None), "h": (0, H), "v": (0, V), "hr": (1, H), "vr": (1, V)}


@cases(shape=list(TileShape), name=list(MAPS), turns=[-4, 0, 4, 8], scale=[1, 2, 0.3, 7])
def case_inexact(shape, name, turns, scale):
    """matrices that carry rounding errors act like the exact ones"""
    k, flip = NOISY[name]
    mat = turned(k + turns)
    if flip is not None:
        mat = mat * flip
    t = make(shape, False)
    o = clone(t)
    t.transform((mat * scale).translate(0.1, -0.7))
    check(o, t, name, "transform")


@cases(shape=list(TileShape), name=list(MAPS))
def case_leftover_data(shape, name):
    """data on sides the shape does not have never leaks to a side it has"""
    t = make(shape, True)
    o = clone(t)
    t.transform(MAPS[name][0])
    check(o, t, name, "transform")


@cases(shape=list(TileShape), name=list(MAPS), scale=[1, 2])
def case_inverse(shape, name, scale):
    t = make(shape, False)
    o = clone(t)
    t.transform(MAPS[name][0] * scale)
    t.transform(MAPS[MAPS[name][3]][0])
    tile_same(o, t, "map and inverse")


@cases(shape=list(TileShape), a=list(MAPS), b=list(MAPS))
def case_compose(shape, a, b):
    t = make(shape, False)
    w = clone(t)
    t.transform(MAPS[a][0])
    t.transform(MAPS[b][0])
    w.transform(MAPS[b][0] * MAPS[a][0])
    tile_same(w, t, "composition")


@cases(shape=list(TileShape), name=list(MAPS))
def case_edges_are_own(shape, name):
    """no two sides of the result share their data object, so changing one leaves the others"""
    t = make(shape, False)
    t.transform(MAPS[name][0])
    for i in range(4):
        for j in range(i):
            require(t.edge_data[i] is not t.edge_data[j], "sides have data of their own")


@cases(shape=list(TileShape), seed=range(30 if THOROUGH else 6))
def case_program(shape, seed):
    """several maps and edits one after another"""
    x = (seed * 21 + int(shape)) * 7919 + 17
    names = list(MAPS)
    t = make(shape, False)
    for k in range(5):
        x = (x * 1103515245 + 12345) % 2147483648
        name = names[(x >> 12) % len(names)]
        if (x >> 20) % 3 == 0:
            t.shape = TileShape((x >> 14) % 21)
            for side in range(4):
                t.edge_data[side] = TileEdgeData()
                if side in edges_of(t.shape):
                    fill_edge(t.edge_data[side], "n" + str(k) + "e" + str(side), SETS[(side + k) % 4])
        o = clone(t)
        t.transform(MAPS[name][0] * (1 + k % 3))
        check(o, t, name, "step " + str(k))
