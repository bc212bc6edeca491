"""C23: edge visibility follows the documented rules for every neighbourhood."""

from dustmaker.level import Level
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSide, TileSpriteSet
from rules.common import edge_same, fill_edge
from rules.geometry import edge_of, flush

RULE = (
    "Every pair of tile shapes (and the absent neighbour) in every direction, with abstract edge data, abstract sprites on "
    "both sides and an abstract answer of the callback, is traced through Level.calculate_edge_visibility; every datum of "
    "every edge is compared with the documented rule evaluated on an independent vertex table."
)

STEP = ((0, -1), (0, 1), (-1, 0), (1, 0))
OPPOSITE = (1, 0, 3, 2)
SETS = [TileSpriteSet.FOREST, TileSpriteSet.NONE_0, TileSpriteSet.CITY, TileSpriteSet.NONE_0]


def make(n, shape, sprite="any"):
    if sprite == "any":
        t = Tile(shape, tile_flags=4, sprite_set=TileSpriteSet.FOREST, sprite_tile=u(n + "tile", 4), sprite_palette=u(n + "pal", 2))
    else:
        t = Tile(shape, tile_flags=4, sprite_set=sprite[0], sprite_tile=sprite[1], sprite_palette=sprite[2])
    for side in range(4):
        fill_edge(t.edge_data[side], n + "e" + str(side), SETS[side])
    return t


def same_sprite(a, b):
    return a.sprite_set == b.sprite_set and a.sprite_tile == b.sprite_tile and a.sprite_palette == b.sprite_palette


def check(tiles, olds, key, answer, where):
    """tiles: after, olds: before"""
    la, x, y = key
    t, o = tiles[key], olds[key]
    require(t.shape == o.shape and t.tile_flags == o.tile_flags and same_sprite(t, o), where + ": shape, flags and sprite are kept")
    require(len(t.edge_data) == 4, where + ": four edges")
    for side in range(4):
        w = where + ": side " + str(side)
        e = t.edge_data[side]
        seg = edge_of(o.shape, side)
        if seg is None:
            edge_same(TileEdgeData(), e, w + " does not exist")
            continue
        want = clone(o.edge_data[side])
        n = olds.get((la, x + STEP[side][0], y + STEP[side][1]))
        nseg = None if n is None else edge_of(n.shape, OPPOSITE[side])
        if not flush(seg, side) or nseg is None or not flush(nseg, OPPOSITE[side]):
            want.solid = True
            want.visible = True
        else:
            want.solid = False
            if same_sprite(o, n):
                want.visible = False
            elif answer is None:
                want.visible = side in (1, 3)
            else:
                want.visible = answer(x, y, side)
        edge_same(want, e, w)


def run(tiles, back, where, lv=None):
    if lv is None:
        lv = Level()
        lv.tiles = dict(tiles)
    olds = {k: clone(t) for k, t in tiles.items()}
    if back:
        def answer(x, y, side):
            return flag("ans%d_%d_%d" % (x, y, side))

        def callback(x, y, side, tile, ntile):
            for (la, tx, ty), t in tiles.items():
                if t is tile:
                    d = STEP[side]
                    if (tx, ty) == (x, y) and tiles.get((la, x + d[0], y + d[1])) is ntile and type(side) is TileSide:
                        return flag("ans%d_%d_%d" % (x, y, side))
            fail("callback called for another edge")
            return False

        lv.calculate_edge_visibility(visible_callback=callback)
    else:
        answer = None
        lv.calculate_edge_visibility()
    require(list(lv.tiles) == list(tiles), where + ": tiles stay in place")
    for k in tiles:
        check(lv.tiles, olds, k, answer, where + " " + str(k))


@cases(a=list(TileShape), b=list(TileShape), side=[0, 1, 2, 3], back=[False, True])
def case_pair(a, b, side, back):
    """two touching tiles of any shapes and sprites"""
    x, y = -1, 3
    run({(19, x, y): make("a", a), (19, x + STEP[side][0], y + STEP[side][1]): make("b", b)}, back, "pair")


@cases(a=list(TileShape), where=["none", "layer", "diagonal", "far"])
def case_alone(a, where):
    """no neighbour on the same layer"""
    tiles = {(19, 0, 0): make("a", a)}
    if where == "layer":
        for i, d in enumerate(STEP):
            tiles[(18 + 2 * (i % 2), d[0], d[1])] = make("b" + str(i), TileShape.FULL)
    elif where == "diagonal":
        for i, d in enumerate(((1, 1), (1, -1), (-1, 1), (-1, -1))):
            tiles[(19, d[0], d[1])] = make("b" + str(i), TileShape.FULL)
    elif where == "far":
        for i, d in enumerate(STEP):
            tiles[(19, 2 * d[0], 2 * d[1])] = make("b" + str(i), TileShape.FULL)
    run(tiles, False, "alone")


SPRITES = [
    ((TileSpriteSet.FOREST, 3, 1), (TileSpriteSet.FOREST, 3, 1)),
    ((TileSpriteSet.FOREST, 3, 1), (TileSpriteSet.CITY, 3, 1)),
    ((TileSpriteSet.FOREST, 3, 1), (TileSpriteSet.FOREST, 4, 1)),
    ((TileSpriteSet.FOREST, 3, 1), (TileSpriteSet.FOREST, 3, 0)),
    ((TileSpriteSet.NONE_0, 0, 0), (TileSpriteSet.NONE_0, 0, 0)),
    ((TileSpriteSet.NONE_0, 0, 0), (TileSpriteSet.TUTORIAL, 0, 0)),
]


@cases(sprites=SPRITES, side=[0, 1, 2, 3], back=[False, True], layer=[0, 5, 18, 19, 20])
def case_sprites(sprites, side, back, layer):
    """sprites differing in one component"""
    run({(layer, 0, 0): make("a", TileShape.FULL, sprites[0]), (layer, STEP[side][0], STEP[side][1]): make("b", TileShape.FULL, sprites[1])}, back, "sprites")


@cases(a=list(TileShape), k=[0, 1, 2, 3, 4, 5], back=[False, True])
def case_around(a, k, back):
    """a tile with neighbours on all sides, two layers at once"""
    tiles = {(19, 0, 0): make("a", a, SPRITES[0][0]), (7, 0, 0): make("z", TileShape((a + 9) % 21), SPRITES[0][0])}
    for i, d in enumerate(STEP):
        tiles[(19, d[0], d[1])] = make("b" + str(i), TileShape((a * 3 + 5 * i + 7 * k) % 21), SPRITES[0][0] if (i + k) % 3 else SPRITES[1][1])
        if (i + k) % 2:
            tiles[(7, d[0], d[1])] = make("c" + str(i), TileShape((a + 4 * i + k) % 21), SPRITES[(i + k) % 6][1])
    run(tiles, back, "around")


@cases(back=[False, True])
def case_grid(back):
    """a filled block with a hole"""
    tiles = {}
    for x in range(-2, 3):
        for y in range(-2, 3):
            if (x, y) != (1, 0):
                tiles[(19, x, y)] = make("g%d_%d" % (x, y), TileShape.FULL if (x + y) % 3 else TileShape((x * 7 + y * 5) % 21), SPRITES[(x * x + y) % 4][1])
    run(tiles, back, "grid")


@cases(n=[18], at=[(0, 0), (-300, 4000)])
def case_crowd(n, at):
    """a large level on two layers"""
    tiles = {}
    for x in range(n):
        for y in range(n):
            if (x * 5 + y * 3) % 11:
                t = Tile(TileShape((x * 7 + y * 5) % 21) if (x + y) % 4 == 0 else TileShape.FULL, sprite_set=TileSpriteSet.FOREST, sprite_tile=1 + (x // 5 + y // 7) % 2)
                tiles[(19 if x % 2 or y % 3 else 18, at[0] + x, at[1] + y)] = t
                tiles[(18 if x % 2 or y % 3 else 19, at[0] + x, at[1] + y)] = Tile(TileShape((x + y) % 21), sprite_set=TileSpriteSet.FOREST)
    run(tiles, False, "crowd")


@cases(how=["shape", "sprite", "moved", "removed", "added", "edges", "nothing", "other level"], back=[False, True])
def case_edited(how, back):
    """computing again after an edit"""
    lv = Level()
    for i, (x, y) in enumerate([(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, -1)]):
        lv.tiles[(19, x, y)] = make("t" + str(i), TileShape.FULL if i != 3 else TileShape.BIG_1, SPRITES[0][0])
        lv.tiles[(7, x, y)] = make("u" + str(i), TileShape.FULL, SPRITES[0][0])
    run(lv.tiles, back, "before", lv)
    if how == "shape":
        lv.tiles[(19, 0, 0)].shape = TileShape.HALF_A
        lv.tiles[(19, 1, 1)].shape = TileShape.FULL
    elif how == "sprite":
        lv.tiles[(19, 0, 0)].sprite_tile = u("n", 4)
        lv.tiles[(7, 1, 0)].sprite_set = TileSpriteSet.CITY
    elif how == "moved":
        lv.tiles[(19, 0, 2)] = lv.tiles.pop((19, 0, 0))
    elif how == "removed":
        del lv.tiles[(19, 1, 0)]
    elif how == "added":
        lv.tiles[(19, -1, 0)] = make("n", TileShape.FULL, SPRITES[0][0])
        lv.tiles[(7, 2, 1)] = make("m", TileShape.SMALL_2, SPRITES[0][0])
    elif how == "edges":
        for i in range(4):
            fill_edge(lv.tiles[(19, 0, 0)].edge_data[i], "n" + str(i), SETS[i])
    elif how == "other level":
        lv = Level()
        lv.tiles[(19, 0, 0)] = make("n", TileShape.FULL, SPRITES[0][0])
        lv.tiles[(19, 1, 0)] = make("m", TileShape.FULL, SPRITES[1][1])
    run(lv.tiles, back, "after", lv)
