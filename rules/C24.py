"""C24: edge caps and angles follow the documented joining rules."""

import math

from dustmaker.level import Level
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet
from rules.common import edge_same
from rules.geometry import CORNERS, edge_of, edges_of

RULE = (
    "Every shape, existing side and end, with every shape in each of the three cells around that end (alone and in pairs"
    + (", and in triples" if THOROUGH else "") + "), abstract visibility, sprites, filth flags and stale cap data, is traced through "
    "Level.calculate_edge_caps; every datum of every edge is compared with the documented join rule evaluated on an "
    "independent vertex table. Visible edges are assumed to exist for their shape."
)

F, C, N = TileSpriteSet.FOREST, TileSpriteSet.CITY, TileSpriteSet.NONE_0


def make(n, shape, visible, filth=N, sprite=None):
    """visible: side -> bool; everything the computation must overwrite is abstract"""
    t = Tile(shape, tile_flags=4, sprite_set=F, sprite_tile=3 if sprite is None else sprite, sprite_palette=1)
    for side in range(4):
        e = t.edge_data[side]
        e.solid = flag(n + "s" + str(side))
        e.visible = visible.get(side, False)
        e.caps = (flag(n + "c" + str(side)), flag(n + "d" + str(side)))
        e.angles = (s(n + "a" + str(side), 8), s(n + "b" + str(side), 8))
        e.filth_sprite_set = filth
        e.filth_spike = flag(n + "k" + str(side)) if side in visible else flag(n + "k")
        e.filth_caps = (flag(n + "fc" + str(side)), flag(n + "fd" + str(side)))
        e.filth_angles = (s(n + "fa" + str(side), 8), s(n + "fb" + str(side), 8))
    return t


def ends(shape, side, x, y, end):
    """(from, to) of a side in half tiles when walking towards the given end (1: clockwise), or None"""
    seg = edge_of(shape, side)
    if seg is None:
        return None
    a, b = [(px + 2 * x, py + 2 * y) for px, py in seg]
    return (a, b) if end else (b, a)


def turn(walk, nxt):
    """clockwise turn in degrees"""
    (a, b), (c, d) = walk, nxt
    t = math.degrees(math.atan2(d[1] - c[1], d[0] - c[0]) - math.atan2(b[1] - a[1], b[0] - a[0]))
    while t > 180:
        t -= 360
    while t <= -180:
        t += 360
    return t


def joins(olds, key, side, end):
    """geometrically possible continuations, the one turning furthest away from the tile first"""
    la, x, y = key
    walk = ends(olds[key].shape, side, x, y, end)
    out = []
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            n = olds.get((la, x + dx, y + dy)) if dx or dy else None
            nxt = None if n is None else ends(n.shape, side, x + dx, y + dy, end)
            if nxt is not None and nxt[0] == walk[1]:
                out.append((turn(walk, nxt), n))
    # clockwise, the tile is on the right: away is counter-clockwise (negative)
    out.sort(key=lambda p: p[0] if end else -p[0])
    return out


def same_sprite(a, b):
    return a.sprite_set == b.sprite_set and a.sprite_tile == b.sprite_tile and a.sprite_palette == b.sprite_palette


def check_end(olds, key, side, end, e, where):
    o = olds[key]
    oe = o.edge_data[side]
    la, x, y = key
    p = ends(o.shape, side, x, y, end)[1]
    cap, ang, fcap, fang = e.caps[end], e.angles[end], e.filth_caps[end], e.filth_angles[end]
    if p[0] % 2 or p[1] % 2:
        require(cap == False and ang == 0, where + ": end between corners has neither cap nor angle", cap, ang)
        require(fcap == False and fang == 0, where + ": end between corners has neither filth cap nor angle", fcap, fang)
        return
    for t, n in joins(olds, key, side, end):
        ne = n.edge_data[side]
        if ne.visible and same_sprite(o, n):
            require(cap == False, where + ": joined end has no cap")
            require(abs(ang - t / 2) < 1, where + ": angle is half the turn", ang, t / 2)
            if oe.filth_sprite_set != N:
                if oe.filth_sprite_set == ne.filth_sprite_set and oe.filth_spike == ne.filth_spike:
                    require(fcap == False and fang == ang, where + ": joined filth", fcap, fang)
                else:
                    require(fcap == True and fang == 0, where + ": filth ends at different filth", fcap, fang)
            else:
                require(fcap == False and fang == 0, where + ": no filth, no filth cap", fcap, fang)
            return
    require(cap == True and ang == 0, where + ": free end has a cap", cap, ang)
    require(fcap == (oe.filth_sprite_set != N) and fang == 0, where + ": filth at a free end", fcap, fang)


def check_tile(lv, olds, key, where):
    t, o = lv.tiles[key], olds[key]
    require(t.shape == o.shape and t.tile_flags == o.tile_flags and same_sprite(t, o), where + ": shape, flags, sprite")
    for side in range(4):
        w = where + " side " + str(side)
        e, oe = t.edge_data[side], o.edge_data[side]
        require(e.solid == oe.solid and e.visible == oe.visible, w + ": solidity and visibility are kept")
        if not oe.visible:
            x = TileEdgeData()
            x.solid, x.visible = oe.solid, oe.visible
            edge_same(x, e, w + " invisible")
            continue
        require(e.filth_sprite_set == oe.filth_sprite_set, w + ": filth is kept")
        require(oe.filth_sprite_set == N or e.filth_spike == oe.filth_spike, w + ": spike flag is kept")
        require(type(e.angles[0]) is int and type(e.angles[1]) is int, w + ": angles are whole numbers")
        check_end(olds, key, side, 0, e, w + " first end")
        check_end(olds, key, side, 1, e, w + " second end")


def run(tiles, where, lv=None):
    if lv is None:
        lv = Level()
        lv.tiles = dict(tiles)
    olds = {k: clone(t) for k, t in tiles.items()}
    lv.calculate_edge_caps()
    require(list(lv.tiles) == list(tiles), where + ": tiles stay in place")
    for k in tiles:
        check_tile(lv, olds, k, where + " " + str(k))


def around(corner):
    """the three other cells at a corner of the square"""
    dx, dy = (1 if corner[0] else -1), (1 if corner[1] else -1)
    return [(dx, 0), (dx, dy), (0, dy)]


SIDES = [(sh, side) for sh in TileShape for side in edges_of(sh)]


@cases(what=SIDES, filth=[(N, N), (F, F), (F, C), (F, N), (N, C)])
def case_single(what, filth):
    """one neighbour of every shape in every cell at either end"""
    shape, side = what
    for end in (0, 1):
        p = ends(shape, side, 0, 0, end)[1]
        if p[0] % 2 or p[1] % 2:
            run({(19, 0, 0): make("a", shape, {side: True}, filth[0])}, "slant end")
            continue
        for cell in around(p):
            for ns in TileShape:
                if side not in edges_of(ns):
                    continue
                nxt = ends(ns, side, cell[0], cell[1], end)
                if nxt[0] != p and filth != (F, F):
                    continue
                run({(19, 0, 0): make("a", shape, {side: True}, filth[0]), (19, cell[0], cell[1]): make("b", ns, {side: True}, filth[1])}, "single")


@cases(what=SIDES, vis=["none", "abstract"], filth=[(F, F), (N, N)])
def case_conditions(what, vis, filth):
    """visibility and sprite of the neighbour decide"""
    shape, side = what
    for end in (0, 1):
        p = ends(shape, side, 0, 0, end)[1]
        for cell in around(p):
            for ns in TileShape:
                if side in edges_of(ns) and ends(ns, side, cell[0], cell[1], end)[0] == p:
                    nv = False if vis == "none" else flag("nv")
                    run({(19, 0, 0): make("a", shape, {side: flag("av")}, filth[0]), (19, cell[0], cell[1]): make("b", ns, {side: nv}, filth[1], u("bt", 3))}, "conditions")


SPRITES = [
    ((F, 3, 1), (F, 3, 1)),
    ((F, 3, 1), (F, 3, 2)),
    ((F, 3, 1), (F, 4, 1)),
    ((F, 3, 1), (C, 3, 1)),
    ((F, 3, 0), (F, 3, 1)),
    ((F, 0, 0), (N, 0, 0)),
    ((N, 0, 0), (N, 0, 0)),
    ((N, 0, 0), (N, 0, 1)),
    ((TileSpriteSet.TUTORIAL, 3, 1), (N, 3, 1)),
    ((F, 1, 12), (F, 11, 2)),
    ((F, 1, 2), (F, 2, 1)),
    ((F, 255, 15), (F, 255, 15)),
    ((F, 255, 15), (F, 254, 15)),
    ((C, 16, 0), (F, 0, 1)),
]


@cases(what=SIDES[:: 1 if THOROUGH else 3], pair=SPRITES, filth=[(F, F)])
def case_sprites(what, pair, filth):
    """each part of the sprite decides"""
    shape, side = what
    for end in (0, 1):
        p = ends(shape, side, 0, 0, end)[1]
        for cell in around(p):
            for ns in TileShape:
                if side in edges_of(ns) and ends(ns, side, cell[0], cell[1], end)[0] == p:
                    a, b = make("a", shape, {side: True}, filth[0]), make("b", ns, {side: True}, filth[1])
                    a.sprite_set, a.sprite_tile, a.sprite_palette = pair[0]
                    b.sprite_set, b.sprite_tile, b.sprite_palette = pair[1]
                    run({(19, 0, 0): a, (19, cell[0], cell[1]): b}, "sprites")
                    break


@cases(side=[0, 1, 2, 3], part=["tile", "palette", "both"])
def case_any_sprites(side, part):
    """any two tile numbers and palettes"""
    for cell in ((1, 0), (-1, 0), (0, 1), (0, -1)):
        a, b = make("a", TileShape.FULL, {side: True}, F), make("b", TileShape.FULL, {side: True}, F)
        if part != "palette":
            a.sprite_tile, b.sprite_tile = u("at", 8), u("bt", 8)
        if part != "tile":
            a.sprite_palette, b.sprite_palette = u("ap", 4), u("bp", 4)
        run({(19, 0, 0): a, (19, cell[0], cell[1]): b}, "any sprites")


@cases(what=SIDES)
def case_other_layer(what):
    """tiles of other layers, further away or on the other side do not join"""
    shape, side = what
    seen = {}
    for end in (0, 1):
        p = ends(shape, side, 0, 0, end)[1]
        for cell in around(p):
            for ns in TileShape:
                if side in edges_of(ns) and ends(ns, side, cell[0], cell[1], end)[0] == p:
                    seen[(18, cell[0], cell[1])] = make("b", ns, {side: True})
                    seen[(20, cell[0], cell[1])] = make("c", ns, {side: True})
                    seen[(19, 2 * cell[0], 2 * cell[1])] = make("d", ns, {side: True})
                    break
    seen[(19, 0, 0)] = make("a", shape, {side: True}, F)
    run(seen, "other layers")


@cases(what=SIDES, end=[0, 1], filth=[(N, N, N), (F, F, C)])
def case_pair(what, end, filth):
    """two possible continuations: the one turning away wins"""
    shape, side = what
    p = ends(shape, side, 0, 0, end)[1]
    if p[0] % 2 or p[1] % 2:
        return
    cells = around(p)
    poss = [[ns for ns in TileShape if side in edges_of(ns) and ends(ns, side, c[0], c[1], end)[0] == p] for c in cells]
    for i in range(3):
        for j in range(i):
            for a in poss[i]:
                for b in poss[j]:
                    for order, vis in ((0, True), (1, True), (0, False)) if filth[0] == N else ((0, True),):
                        tiles = {(19, 0, 0): make("a", shape, {side: True}, filth[0])}
                        two = [((19, cells[i][0], cells[i][1]), make("b", a, {side: vis}, filth[1])), ((19, cells[j][0], cells[j][1]), make("c", b, {side: True}, filth[2]))]
                        for k, t in two if order else two[::-1]:
                            tiles[k] = t
                        run(tiles, "pair")


@cases(k=list(range(60 if THOROUGH else 12)))
def case_block(k):
    """blocks of tiles with every side visible that exists"""
    tiles = {}
    for x in range(-1, 2):
        for y in range(-1, 2):
            i = (x + 1) * 3 + y + 1
            sh = TileShape((k * 5 + i * (k + 2)) % 21)
            tiles[(19, x, y)] = make("t" + str(i), sh, {sd: True for sd in edges_of(sh)}, [N, F, F, C][(i * k + i) % 4], [3, 3, 4][(i + k) % 3])
    run(tiles, "block")


@cases(shape=list(TileShape), layer=[0, 7, 18, 20], pos=[(-100, 7), (3000, -1)])
def case_place(shape, layer, pos):
    """anywhere, on any layer"""
    x, y = pos
    vis = {sd: True for sd in edges_of(shape)}
    run({(layer, x, y): make("a", shape, vis, F), (layer, x + 1, y): make("b", shape, vis, F), (layer, x, y + 1): make("c", shape, vis, F), (layer, x + 1, y - 1): make("d", shape, vis, F)}, "place")


@cases(how=["shape", "sprite", "visible", "filth", "moved", "removed", "added", "nothing", "other level"])
def case_edited(how):
    """computing again after an edit"""
    lv = Level()
    full = {0: True, 1: True, 2: True, 3: True}
    for i, (x, y) in enumerate([(0, 0), (1, 0), (0, 1), (2, 1), (-1, 1), (1, 2)]):
        sh = TileShape.FULL if i % 3 != 2 else TileShape.BIG_1
        lv.tiles[(19, x, y)] = make("t" + str(i), sh, {sd: True for sd in edges_of(sh)}, [N, F, F, C][i % 4])
        lv.tiles[(7, x, y)] = make("u" + str(i), TileShape.FULL, full, F)
    run(lv.tiles, "before", lv)
    t = lv.tiles[(19, 1, 0)]
    if how == "shape":
        t.shape = TileShape.HALF_B
        for side in range(4):
            t.edge_data[side].visible = side in edges_of(TileShape.HALF_B)
    elif how == "sprite":
        t.sprite_tile = 4
    elif how == "visible":
        t.edge_data[0].visible = False
        lv.tiles[(7, 1, 0)].edge_data[1].visible = False
    elif how == "filth":
        t.edge_data[0].filth_sprite_set = C
        lv.tiles[(19, 0, 0)].edge_data[0].filth_sprite_set = C
        lv.tiles[(19, 0, 0)].edge_data[0].filth_spike = t.edge_data[0].filth_spike
    elif how == "moved":
        lv.tiles[(19, 3, 0)] = lv.tiles.pop((19, 1, 0))
    elif how == "removed":
        del lv.tiles[(19, 1, 0)]
    elif how == "added":
        lv.tiles[(19, -1, 0)] = make("n", TileShape.FULL, full, F)
    elif how == "other level":
        lv = Level()
        lv.tiles[(19, 0, 0)] = make("n", TileShape.FULL, full, F)
        lv.tiles[(19, 1, 0)] = make("m", TileShape.FULL, full, C)
    run(lv.tiles, "after", lv)


@cases(n=[10], at=[(0, 0), (-300, 4000)])
def case_crowd(n, at):
    """a large level on two layers"""
    tiles = {}
    for x in range(n):
        for y in range(n):
            for layer in (19, 7):
                i = x * 5 + y * 3 + layer
                if i % 11:
                    sh = TileShape(i * 7 % 21) if i % 4 == 0 else TileShape.FULL
                    t = Tile(sh, sprite_set=F, sprite_tile=3 + (x // 4 + y // 3) % 2, sprite_palette=1)
                    for sd in edges_of(sh):
                        t.edge_data[sd].visible = (x + y + sd) % 5 != 0
                        t.edge_data[sd].filth_sprite_set = [N, F, F, C][(x + y) // 3 % 4]
                        t.edge_data[sd].filth_spike = y > 7
                    tiles[(layer, at[0] + x, at[1] + y)] = t
    run(tiles, "crowd")
