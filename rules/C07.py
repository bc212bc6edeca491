"""C07: tiles survive a level write/read unchanged and in place."""

from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from rules.common import any_tile, fill_edge, load, save, tile_same

RULE = (
    "Tiles with abstract flags, sprite, caps, angles and filth on every edge are traced through write_level and "
    "read_level for every shape, layer and sprite set, at abstract (signed) coordinates; the level read back must hold "
    "exactly the same coordinates and the same tile contents, for level and backdrop, alone and with neighbours in the "
    "same segment, another segment or another region."
)

SETS = list(TileSpriteSet)
FILTH = [None, (1, 0, 0, 0), (0, 2, 0, 0), (0, 0, 3, 0), (0, 0, 0, 4), (5, 6, 7, 1), (0, 3, 0, 2), (7, 7, 7, 7)]


def check(level, keys, tiles, where, backdrop=False, filth=True):
    back = load(save(level))
    part = back.backdrop if backdrop else back
    other = back if backdrop else back.backdrop
    require(len(other.tiles) == 0, where + ": no tile in the other part")
    require(len(part.tiles) == len(keys), where + ": number of tiles", len(part.tiles), len(keys))
    for k, t in zip(keys, tiles):
        got = part.tiles.get(k)
        require(got is not None, where + ": tile present at its place", k, list(part.tiles))
        if got is not None:
            tile_same(t, got, where, filth)


def sets_of(f):
    if f is None:
        return None
    return [TileSpriteSet(i) for i in f]


@cases(shape=list(TileShape), f=FILTH)
def case_contents(shape, f):
    level = Level()
    t = any_tile("t", shape, TileSpriteSet.FOREST, sets_of(f))
    keep = clone(t)
    level.tiles[(19, 3, 5)] = t
    check(level, [(19, 3, 5)], [keep], "collision tile")


@cases(layer=range(21), backdrop=[False, True])
def case_layer(layer, backdrop):
    level = Level()
    t = any_tile("t", TileShape.BIG_3, TileSpriteSet.CITY)
    keep = clone(t)
    part = level.backdrop if backdrop else level
    part.tiles[(layer, 2, 1)] = t
    check(level, [(layer, 2, 1)], [keep], "tile", backdrop)


@cases(sset=SETS, layer=[0, 19, 20])
def case_sprite_set(sset, layer):
    level = Level()
    t = any_tile("t", TileShape.FULL, sset)
    keep = clone(t)
    level.tiles[(layer, 2, 1)] = t
    check(level, [(layer, 2, 1)], [keep], "tile")


# every class of coordinate: each residue in the segment (abstract), segment and region boundaries, both signs
BASES = [0, 1, 15, 16, 17, 31, 32, 240, 255, 256, 257, 511, 512, 4096, -1, -2, -15, -16, -17, -255, -256, -257, -512, -4096, 8000000, -8000000]


@cases(x=BASES, y=[0, -1, 20, -300], backdrop=[False, True], layer=[19, 6])
def case_place(x, y, backdrop, layer):
    if backdrop and abs(x) > 400000:
        return
    level = Level()
    t = any_tile("t", TileShape.SMALL_5, TileSpriteSet.MANSION)
    keep = clone(t)
    part = level.backdrop if backdrop else level
    part.tiles[(layer, x, y)] = t
    check(level, [(layer, x, y)], [keep], "tile", backdrop)
    level = Level()
    part = level.backdrop if backdrop else level
    part.tiles[(layer, y, x)] = t
    check(level, [(layer, y, x)], [keep], "tile", backdrop)


@cases(axis=["x", "y"], bits=[5, 9, 12, 18], backdrop=[False, True], other=[0, -7, 300])
def case_place_any(axis, bits, backdrop, other):
    """one coordinate ranges over all signed values of a width"""
    level = Level()
    c = s("c", bits)
    key = (19, c, other) if axis == "x" else (19, other, c)
    t = Tile(TileShape.HALF_B, sprite_palette=3)
    t.edge_data[1].filth_sprite_set = TileSpriteSet.CITY
    t.edge_data[1].filth_angles = (5, -7)
    keep = clone(t)
    part = level.backdrop if backdrop else level
    part.tiles[key] = t
    back = load(save(level))
    part = back.backdrop if backdrop else back
    require(len(part.tiles) == 1, "one tile")
    for k in part.tiles:
        require(k[0] == 19, "layer")
        require(k[1] == key[1], "x coordinate", key[1], k[1])
        require(k[2] == key[2], "y coordinate", key[2], k[2])
        tile_same(keep, part.tiles[k], "tile")


# pairs: same segment, other segment, other region, other layer
PAIRS = [
    ((19, 0, 0), (19, 1, 0)), ((19, 0, 0), (19, 0, 1)), ((19, 5, 3), (19, 3, 5)), ((19, 0, 0), (18, 0, 0)), ((19, 0, 0), (20, 0, 0)),
    ((19, 0, 0), (19, 16, 0)), ((19, 0, 0), (19, 0, 16)), ((19, 15, 15), (19, 16, 16)), ((19, 0, 0), (19, -1, 0)), ((19, 0, 0), (19, 0, -1)),
    ((19, 255, 0), (19, 256, 0)), ((19, -256, -256), (19, -257, -257)), ((19, 0, 0), (19, 256, 256)), ((3, 40, 40), (19, 40, 40)),
    ((19, 0, 0), (19, 4096, 0)), ((19, 300, -300), (19, -300, 300)), ((7, -1, -1), (7, -16, -16)),
]


@cases(pair=PAIRS, backdrop=[False, True])
def case_two(pair, backdrop):
    level = Level()
    part = level.backdrop if backdrop else level
    a, b = pair
    ta = any_tile("a", TileShape.FULL, TileSpriteSet.FOREST, sets_of((1, 2, 3, 4)) if a[0] == 19 else None)
    tb = any_tile("b", TileShape.HALF_C, TileSpriteSet.NEXUS, sets_of((0, 5, 0, 6)) if b[0] == 19 else None)
    ka, kb = clone(ta), clone(tb)
    part.tiles[b] = tb
    part.tiles[a] = ta
    check(level, [a, b], [ka, kb], "two tiles", backdrop)


@cases(dx=[0, 3], dy=[0, 1])
def case_both_parts(dx, dy):
    """level and backdrop tiles side by side"""
    level = Level()
    ta = any_tile("a", TileShape.FULL, TileSpriteSet.FOREST, sets_of((0, 0, 2, 0)))
    tb = any_tile("b", TileShape.HALF_D, TileSpriteSet.CITY)
    ka, kb = clone(ta), clone(tb)
    level.tiles[(19, dx, dy)] = ta
    level.backdrop.tiles[(19, dx, dy)] = tb
    back = load(save(level))
    require(list(back.tiles) == [(19, dx, dy)], "level tiles")
    require(list(back.backdrop.tiles) == [(19, dx, dy)], "backdrop tiles")
    tile_same(ka, back.tiles[(19, dx, dy)], "level tile")
    tile_same(kb, back.backdrop.tiles[(19, dx, dy)], "backdrop tile")


@cases(layer=range(21) if THOROUGH else [0, 6, 18, 19, 20], n=[16])
def case_full_segment(layer, n):
    """a completely filled segment"""
    level = Level()
    for x in range(n):
        for y in range(n):
            level.tiles[(layer, x, y)] = Tile(TileShape((x + y * 3) % 21), sprite_tile=x * 16 + y, sprite_palette=y % 16)
            if layer == 19:
                level.tiles[(layer, x, y)].edge_data[x % 4].filth_sprite_set = TileSpriteSet(1 + y % 5)
    keep = clone(level.tiles)
    back = load(save(level))
    require(len(back.tiles) == n * n, "number of tiles", len(back.tiles))
    require_same(back.tiles, keep, "tiles of a full segment")


@cases(layers=[[0, 5, 19, 20], list(range(21))])
def case_many_layers(layers):
    level = Level()
    for la in layers:
        level.tiles[(la, la - 8, la * 3 - 20)] = Tile(TileShape(la), sprite_tile=u("t" + str(la), 8))
    keep = clone(level.tiles)
    back = load(save(level))
    require(len(back.tiles) == len(layers), "number of tiles")
    require_same(back.tiles, keep, "tiles of all layers")


@cases(step=[16, 40, 256], n=[18], backdrop=[False, True])
def case_spread(step, n, backdrop):
    """many segments, many regions"""
    level = Level()
    part = level.backdrop if backdrop else level
    keys = []
    for i in range(n):
        for j in range(n):
            k = ([19, 0, 20, 7][(i + j) % 4], (i - n // 2) * step + j % 3, (n // 2 - j) * step - i % 2)
            keys.append(k)
            t = Tile(TileShape((i * n + j) % 21), tile_flags=(i + j) % 8, sprite_tile=(i * n + j) % 256, sprite_palette=j % 16)
            if i + j == 7:
                t.edge_data[i % 4].angles = (s("a" + str(i), 8), s("b" + str(i), 8))
            part.tiles[k] = t
    keep = clone(part.tiles)
    back = load(save(level))
    got = back.backdrop.tiles if backdrop else back.tiles
    require(len(got) == n * n, "number of tiles", len(got))
    for k in keys:
        require(k in got, "tile present", k)
        if k in got:
            require(got[k].shape == keep[k].shape and got[k].sprite_tile == keep[k].sprite_tile and got[k].tile_flags == keep[k].tile_flags, "tile contents", k)
            require(got[k].edge_data[k[1] % 4].angles == keep[k].edge_data[k[1] % 4].angles, "tile angles", k)


@cases(n=[12])
def case_full_layers(n):
    """every layer of one segment well filled"""
    level = Level()
    for la in range(21):
        for i in range(n * 5):
            x, y = (i * 7 + la) % 16, i * 7 // 16 % 16
            level.tiles[(la, x, y)] = Tile(TileShape((la + i) % 21), sprite_tile=la * 12 + i % 12, sprite_palette=i % 16)
    keep = clone(level.tiles)
    back = load(save(level))
    require(len(back.tiles) == len(keep), "number of tiles", len(back.tiles))
    require_same(back.tiles, keep, "tiles of a segment with all layers")


def twins():
    """tiles that differ from the first one in a single datum each"""
    out = []

    def new():
        t = Tile(TileShape.FULL, tile_flags=4, sprite_set=TileSpriteSet.CITY, sprite_tile=3, sprite_palette=1)
        for e in t.edge_data:
            e.solid = e.visible = True
            e.caps, e.angles = (True, False), (10, -20)
            e.filth_sprite_set, e.filth_spike = TileSpriteSet.FOREST, False
            e.filth_caps, e.filth_angles = (False, True), (5, -6)
        out.append(t)
        return t

    new()
    new().shape = TileShape.BIG_1
    new().tile_flags = 5
    new().sprite_set = TileSpriteSet.FOREST
    new().sprite_tile = 4
    new().sprite_palette = 2
    for i in range(4):
        new().edge_data[i].solid = False
        new().edge_data[i].visible = False
        new().edge_data[i].caps = (False, False)
        new().edge_data[i].caps = (True, True)
        new().edge_data[i].angles = (11, -20)
        new().edge_data[i].angles = (10, -21)
        new().edge_data[i].filth_sprite_set = TileSpriteSet.CITY
        new().edge_data[i].filth_spike = True
        new().edge_data[i].filth_caps = (True, True)
        new().edge_data[i].filth_caps = (False, False)
        new().edge_data[i].filth_angles = (6, -6)
        new().edge_data[i].filth_angles = (5, -7)
    return out


@cases(layer=[19, 3], backdrop=[False, True], turn=[False, True], step=[1, 16])
def case_twins(layer, backdrop, turn, step):
    """tiles that are nearly the same, side by side"""
    level = Level()
    part = level.backdrop if backdrop else level
    tiles = twins()
    if turn:
        tiles = tiles[::-1]
    keys = [(layer, i % 8 * step, i // 8 * step) for i in range(len(tiles))]
    keep = []
    for k, t in zip(keys, tiles):
        keep.append(clone(t))
        part.tiles[k] = t
    check(level, keys, keep, "twins", backdrop, layer == 19)


@cases(back=[False, True], layer=[19, 7], how=["fields", "edges", "edge objects", "tile", "moved", "swapped", "removed", "copied", "other level", "reader"])
def case_edited(back, layer, how):
    """what is written is what the level holds then, whatever was written or read before"""
    level = Level()
    part = level.backdrop if back else level
    sets = [TileSpriteSet(i) for i in (1, 0, 3, 2)] if layer == 19 else None
    a, b, c = (layer, 3, 5), (layer, 4, 5), (layer, -2, 300)
    part.tiles[a] = any_tile("a", TileShape.BIG_2, TileSpriteSet.FOREST, sets)
    part.tiles[b] = any_tile("b", TileShape.FULL, TileSpriteSet.CITY, sets)
    part.tiles[c] = any_tile("c", TileShape.FULL, TileSpriteSet.CITY, sets)
    first = save(level)
    load(first)
    t = part.tiles[a]
    if how == "fields":
        t.shape, t.tile_flags, t.sprite_set, t.sprite_tile, t.sprite_palette = TileShape.SMALL_7, u("nf", 3), TileSpriteSet.NEXUS, u("nt", 8), u("np", 4)
    elif how == "edges":
        for i in range(4):
            fill_edge(t.edge_data[i], "n" + str(i), TileSpriteSet(5 - i) if layer == 19 else None)
    elif how == "edge objects":
        t.edge_data = [clone(x) for x in part.tiles[b].edge_data]
    elif how == "tile":
        part.tiles[a] = any_tile("n", TileShape.HALF_D, TileSpriteSet.MANSION, sets)
    elif how == "moved":
        part.tiles[(layer, 9, -9)] = part.tiles.pop(a)
    elif how == "swapped":
        part.tiles[a], part.tiles[c] = part.tiles[c], part.tiles[a]
    elif how == "removed":
        del part.tiles[b]
    elif how == "copied":
        part.tiles[(layer, 5, 5)] = t
        part.tiles[(layer, -5, 5)] = t
    elif how == "other level":
        level = Level()
        part = level.backdrop if back else level
        part.tiles[a] = any_tile("o", TileShape.SMALL_3, TileSpriteSet.MANSION, sets)
    elif how == "reader":
        level = load(first)
        part = level.backdrop if back else level
        part.tiles[a].sprite_tile = u("nt", 8)
        part.tiles[a].edge_data[2].angles = (s("na", 8), s("nb", 8))
        part.tiles[b].shape = TileShape.HALF_A
    keys = list(part.tiles)
    check(level, keys, [clone(part.tiles[k]) for k in keys], "edited tile", back)
