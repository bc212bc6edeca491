"""C22: upscaling covers exactly the enlarged shape and keeps its outline."""

from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet
from dustmaker.transform import TxMatrix
from rules.C21 import MAPS, PATTERNS, SETS, expect
from rules.common import edge_same, fill_edge, some_prop, tile_same
from rules.geometry import CORNERS, edge_of, edges_of

TOP_FACTOR = 14 if THOROUGH else 7
RULE = (
    "For all 21 shapes and every factor up to " + str(TOP_FACTOR) + ", a tile with abstract edge data, sprite and flags is "
    "traced through Tile.upscale; every piece must lie in the enlarged polygon with the areas adding up (so the union is "
    "exact), and each side of each piece must carry the abstract data of the original side it lies on, or none."
)
NOTE = "Factors above the enumerated ones are not covered."


def make(shape, n=""):
    t = Tile(shape, tile_flags=u(n + "flags", 3), sprite_set=TileSpriteSet.LABORATORY, sprite_tile=u(n + "tile", 8), sprite_palette=u(n + "pal", 4))
    for side in range(4):
        if side in edges_of(shape):
            fill_edge(t.edge_data[side], n + "e" + str(side), SETS[side])
    return t


def polygon(shape, dx=0, dy=0, f=1):
    out = []
    for x, y in CORNERS[int(shape)]:
        p = (f * x + 2 * dx, f * y + 2 * dy)
        if not out or (out[-1] != p and out[0] != p):
            out.append(p)
    return out


def area2(poly):
    t = 0
    for i in range(len(poly)):
        (ax, ay), (bx, by) = poly[i], poly[(i + 1) % len(poly)]
        t += ax * by - bx * ay
    return t


def cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def inside(poly, p):
    """convex polygon, clockwise with y down, so the inside is on the side of positive cross products"""
    for i in range(len(poly)):
        if cross(poly[i], poly[(i + 1) % len(poly)], p) < 0:
            return False
    return True


def between(a, b, p):
    return cross(a, b, p) == 0 and (p[0] - a[0]) * (p[0] - b[0]) <= 0 and (p[1] - a[1]) * (p[1] - b[1]) <= 0


def want_edge(o, f, a, b):
    """data of a piece of outline from a to b"""
    for side, (p, q) in edges_of(o.shape).items():
        p, q = (p[0] * f, p[1] * f), (q[0] * f, q[1] * f)
        if between(p, q, a) and between(p, q, b) and (b[0] - a[0]) * (q[0] - p[0]) + (b[1] - a[1]) * (q[1] - p[1]) > 0:
            e = clone(o.edge_data[side])
            keep = (a == p, b == q)
            e.caps = (e.caps[0] if keep[0] else False, e.caps[1] if keep[1] else False)
            e.filth_caps = (e.filth_caps[0] if keep[0] else False, e.filth_caps[1] if keep[1] else False)
            e.angles = (e.angles[0] if keep[0] else 0, e.angles[1] if keep[1] else 0)
            e.filth_angles = (e.filth_angles[0] if keep[0] else 0, e.filth_angles[1] if keep[1] else 0)
            return e
    return TileEdgeData()


def check(o, f, pieces, where):
    """pieces: list of (dx, dy, tile)"""
    poly = polygon(o.shape, 0, 0, f)
    cells = set()
    total = 0
    for dx, dy, t in pieces:
        require(type(dx) is int and type(dy) is int, where + ": positions are ints")
        require((dx, dy) not in cells, where + ": positions are distinct", (dx, dy))
        cells.add((dx, dy))
        for p in polygon(t.shape, dx, dy):
            require(inside(poly, p), where + ": piece lies in the enlarged shape", (dx, dy), t.shape)
        total += area2(polygon(t.shape, dx, dy))
        require(t.sprite_set == o.sprite_set and t.sprite_tile == o.sprite_tile and t.sprite_palette == o.sprite_palette, where + ": sprite")
        require(t.tile_flags == o.tile_flags, where + ": flags")
        require(len(t.edge_data) == 4, where + ": four edges")
        for side in range(4):
            seg = edge_of(t.shape, side)
            if seg is None:
                edge_same(TileEdgeData(), t.edge_data[side], where + ": missing side " + str(side))
                continue
            a, b = [(x + 2 * dx, y + 2 * dy) for x, y in seg]
            edge_same(want_edge(o, f, a, b), t.edge_data[side], where + ": side " + str(side) + " of piece")
    require(total == area2(poly), where + ": the pieces fill the enlarged shape", total, area2(poly))


@cases(shape=list(TileShape), f=[1, 2, 3], k=range(4))
def case_filth_sets(shape, f, k):
    """edges with and without filth, other sprite sets"""
    t = make(shape)
    t.sprite_set = [TileSpriteSet.NONE_0, TileSpriteSet.MANSION, TileSpriteSet.TUTORIAL, TileSpriteSet.NONE_7][k]
    for side in edges_of(shape):
        t.edge_data[side].filth_sprite_set = PATTERNS[k][side]
    o = clone(t)
    check(o, f, list(t.upscale(f)), "upscale")


@cases(shape=list(TileShape), f=list(range(1, TOP_FACTOR + 1)))
def case_tile(shape, f):
    t = make(shape)
    o = clone(t)
    pieces = list(t.upscale(f))
    if f == 1:
        require(len(pieces) == 1 and pieces[0][:2] == (0, 0), "factor one: one tile")
        tile_same(o, pieces[0][2], "factor one")
    else:
        check(o, f, pieces, "upscale")
    tile_same(o, t, "the original is left alone")
    # pieces have edge data of their own
    for i in range(len(pieces)):
        require(pieces[i][2] is not t, "pieces are new tiles")
        for k in range(4):
            for j in range(4):
                require(pieces[i][2].edge_data[k] is not t.edge_data[j], "pieces have data of their own")


BIG = [TileShape.FULL, TileShape.BIG_1, TileShape.SMALL_1, TileShape.HALF_A, TileShape.SMALL_6, TileShape.BIG_4, TileShape.HALF_C]


@cases(shape=BIG, f=[8, 10, 12, 16, 25, 33, 52] + ([50, 64, 101] if THOROUGH else []))
def case_large_factor(shape, f):
    t = Tile(shape, sprite_set=TileSpriteSet.CITY, sprite_tile=5)
    for side in edges_of(shape):
        e = t.edge_data[side]
        e.solid = e.visible = True
        e.caps, e.angles = (True, True), (4, -6)
    check(clone(t), f, list(t.upscale(f)), "upscale")


def group(tiles, f, cells):
    """tiles of a level by the original cell they came from"""
    out = {c: [] for c in cells}
    for (la, x, y), t in tiles.items():
        key = (la, x // f, y // f)
        require(key in out, "no tile outside the scaled squares", (la, x, y))
        if key in out:
            out[key].append((x % f, y % f, t))
    return out


CELLS = [(19, 0, 0), (19, -1, 2), (19, 5, -3), (18, 0, 0), (0, -7, -7), (20, 1, 1)]


def fill(level, shapes, n):
    olds = {}
    for i, c in enumerate(CELLS):
        t = make(shapes[i % len(shapes)], n + str(i))
        olds[c] = clone(t)
        level.tiles[c] = t
    return olds


@cases(shapes=[[TileShape(i), TileShape((i * 5 + 3) % 21), TileShape.FULL] for i in range(21)], f=[1, 2, 3, 4])
def case_level(shapes, f):
    lv = Level()
    olds = fill(lv, shapes, "t")
    bolds = fill(lv.backdrop, shapes[::-1], "b")
    lv.upscale(f)
    for tiles, old, where in ((lv.tiles, olds, "level"), (lv.backdrop.tiles, bolds, "backdrop")):
        for c, pieces in group(tiles, f, CELLS).items():
            if f == 1:
                require(len(pieces) == 1, where + ": one tile")
                tile_same(old[c], pieces[0][2], where)
            else:
                check(old[c], f, pieces, where)


@cases(shape=list(TileShape), name=list(MAPS), f=[2, 3])
def case_level_with_map(shape, name, f):
    """the extra matrix acts as in transform"""
    lv = Level()
    t = make(shape)
    o = clone(t)
    lv.tiles[(19, 3, -2)] = t
    lv.upscale(f, mat=MAPS[name][0])
    x, y = MAPS[name][1](7, -3)  # twice the centre of the square
    cell = (19, (x - 1) // 2, (y - 1) // 2)
    for c, pieces in group(lv.tiles, f, [cell]).items():
        w = clone(o)
        w.shape, edges = expect(o, name)
        w.edge_data = [edges.get(i, TileEdgeData()) for i in range(4)]
        check(w, f, pieces, "upscale with map")


@cases(name=list(MAPS), f=[1, 2, 3], off=[(1, 0), (-2, 5)])
def case_level_with_offset(name, f, off):
    """the extra matrix acts first, its translation is scaled along"""
    lv = Level()
    lv.tiles[(19, 3, -2)] = make(TileShape.FULL)
    lv.backdrop.tiles[(6, 0, 1)] = make(TileShape.FULL, "b")
    i = lv.add_prop(3, dyadic("px", 12, 4, True), 5.5, some_prop("p"))
    j = lv.add_entity(7.25, dyadic("ey", 12, 4, True), Entity())
    start = lv.start_position(2)
    start.x, start.y = s("sx", 10), -9
    lv.upscale(f, mat=MAPS[name][0].translate(48 * off[0], 48 * off[1]))

    def image(x, y):
        x, y = MAPS[name][1](x, y)
        return f * (x + 48 * off[0]), f * (y + 48 * off[1])

    def squares(x, y):
        x, y = MAPS[name][1](2 * x + 1, 2 * y + 1)
        x, y = f * ((x - 1) // 2 + off[0]), f * ((y - 1) // 2 + off[1])
        return [(x + a, y + b) for a in range(f) for b in range(f)]

    require(set(lv.tiles) == {(19, x, y) for x, y in squares(3, -2)}, "squares of a tile", list(lv.tiles))
    require(set(lv.backdrop.tiles) == {(6, x, y) for x, y in squares(0, 1)}, "squares of a backdrop tile", list(lv.backdrop.tiles))
    for got, x, y, what in (
        (lv.props[i][1:3], dyadic("px", 12, 4, True), 5.5, "prop"),
        (lv.entities[j][:2], 7.25, dyadic("ey", 12, 4, True), "entity"),
        ((lv.start_position(2).x, lv.start_position(2).y), s("sx", 10), -9, "start"),
    ):
        ex, ey = image(x, y)
        require(got[0] == ex, what + " x", got[0], ex)
        require(got[1] == ey, what + " y", got[1], ey)


@cases(f=[7, 11, 16, 17, 20, 33], shape=[TileShape.FULL, TileShape.HALF_A])
def case_level_far(f, shape):
    """a level and its backdrop by large factors: which squares are taken, and by whole tiles inside"""
    lv = Level()
    lv.tiles[(19, 3, -2)] = make(shape)
    lv.backdrop.tiles[(6, 0, 1)] = make(shape, "b")
    lv.upscale(f)
    alone = {(x, y): int(t.shape) for x, y, t in make(shape).upscale(f)}
    for tiles, layer, x0, y0, where in ((lv.tiles, 19, 3, -2, "level"), (lv.backdrop.tiles, 6, 0, 1, "backdrop")):
        require({c: int(t.shape) for c, t in tiles.items()} == {(layer, f * x0 + x, f * y0 + y): k for (x, y), k in alone.items()}, where + ": pieces of the tile")
        if shape == TileShape.FULL:
            require(len(tiles) == f * f, where + ": every square", len(tiles))


@cases(f=[1, 2, 3, 5, 8, 17, 100])
def case_level_scene(f):
    """props, entities and start positions scale along"""
    from rules.C20 import entity
    from rules.common import some_prop

    lv = Level()
    i = lv.add_prop(4, dyadic("x", 12, 4, True), s("y", 12), some_prop("p"))
    b = lv.backdrop.add_prop(4, s("bx", 12), -3.5, some_prop("q"))
    j = lv.add_entity(s("ex", 12), dyadic("ey", 12, 4, True), entity("plain", "e"))
    pos = lv.start_position(2)
    pos.x, pos.y = s("sx", 12), s("sy", 12)
    lv.upscale(f)
    require(list(lv.props) == [i] and list(lv.entities) == [j] and list(lv.backdrop.props) == [b], "nothing lost")
    require(lv.props[i][1] == dyadic("x", 12, 4, True) * f and lv.props[i][2] == s("y", 12) * f, "scaled prop position")
    require(lv.backdrop.props[b][1] == s("bx", 12) * f and lv.backdrop.props[b][2] == -3.5 * f, "scaled backdrop prop position")
    require(lv.entities[j][0] == s("ex", 12) * f and lv.entities[j][1] == dyadic("ey", 12, 4, True) * f, "scaled entity position")
    pos = lv.start_position(2)
    require(pos.x == s("sx", 12) * f and pos.y == s("sy", 12) * f, "scaled start position")


@cases(shape=list(TileShape), f=[2, 3], how=["shape", "edges", "sprite", "again"])
def case_edited(shape, f, how):
    """upscaling again after an edit, and another tile afterwards"""
    t = make(shape)
    list(t.upscale(f))
    if how == "shape":
        t.shape = TileShape((int(shape) * 5 + 4) % 21)
        for side in range(4):
            t.edge_data[side] = TileEdgeData()
            if side in edges_of(t.shape):
                fill_edge(t.edge_data[side], "n" + str(side), TileSpriteSet.CITY)
    elif how == "edges":
        for side in edges_of(shape):
            fill_edge(t.edge_data[side], "n" + str(side), TileSpriteSet.CITY)
    elif how == "sprite":
        t.sprite_set, t.sprite_tile, t.sprite_palette, t.tile_flags = TileSpriteSet.CITY, u("nt", 8), u("np", 4), u("nf", 3)
    check(clone(t), f, list(t.upscale(f)), "upscale after an edit")
    check(clone(t), f + 1, list(t.upscale(f + 1)), "upscale by another factor")
