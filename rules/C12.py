"""C12: segment completion totals count every tile edge and enemy."""

import zlib

from dustmaker import entity as ent
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from rules.common import any_tile, load, save, some_prop
from rules.registry import FILTH, REGISTRY_NAMES

RULE = (
    "The segment headers of the bytes produced by write_level on abstract levels are decoded by the rule; for every "
    "combination of solidity, visibility, filth set and spike flag of the edges (abstract), every sprite set and every "
    "sprite index (abstract) and every entity class, the four totals must equal the sums defined by the property."
)

DUSTBLOCK = {0: None, 1: 21, 2: 13, 3: 6, 4: 9, 5: 2, 6: None, 7: None}


def le(data, at, n):
    return int.from_bytes(data[at : at + n], "little")


def segments(data):
    """(region x, region y, segment x, segment y, backdrop) -> the four totals"""
    from dustmaker.dfreader import DFReader
    import io

    regions = le(data, 12, 4)
    shot = le(data, 44, 4)
    r = DFReader(io.BytesIO(data))
    r.bit_seek((48 + shot) * 8)
    r.read_variable_map()
    at = (r.bit_tell() + 32 * regions + 7) // 8
    out = {}
    for _ in range(regions):
        size = le(data, at, 4)
        rx, ry = le(data, at + 8, 2), le(data, at + 10, 2)
        count, back = le(data, at + 14, 2), le(data, at + 16, 1)
        content = zlib.decompress(data[at + 17 : at + size])
        pos = 0
        for i in range(count + back):
            key = (rx, ry, le(content, pos + 6, 1), le(content, pos + 7, 1), i >= count)
            require(key not in out, "a segment occurs once")
            out[key] = {
                "dust": le(content, pos + 13, 2),
                "enemy": le(content, pos + 15, 2),
                "surface": le(content, pos + 17, 2),
                "dustblock": le(content, pos + 19, 2),
            }
            pos = pos + le(content, pos, 4)
        at = at + size
    return out


def compare(got, **want):
    for k in ("dust", "enemy", "surface", "dustblock"):
        require(got[k] == want.get(k, 0), "stored " + k + " total", want.get(k, 0), got[k])


def dust_of(t):
    n = 0
    for e in t.edge_data:
        n = n + (1 if (e.filth_sprite_set != 0 and not e.filth_spike) else 0)
    return n


def surface_of(t):
    n = 0
    for e in t.edge_data:
        n = n + (1 if (e.solid and e.visible and not e.filth_spike) else 0)
    return n


def dustblock_of(t):
    want = DUSTBLOCK[int(t.sprite_set)]
    if want is None:
        return 0
    return 1 if t.sprite_tile == want else 0


SETS = list(TileSpriteSet)
N, M = TileSpriteSet.NONE_0, TileSpriteSet.MANSION
FILTHS = [[N, N, N, N], [M, N, N, N], [N, M, N, N], [N, N, M, N], [N, N, N, M], [M, M, M, M], [SETS[2], SETS[3], SETS[4], SETS[5]], [N, SETS[6], SETS[7], M]]


@cases(filth=FILTHS, layer=[19, 18, 0, 20], backdrop=[False, True])
def case_edges(filth, layer, backdrop):
    """one tile, all edge flags abstract"""
    level = Level()
    t = any_tile("t", TileShape.FULL, TileSpriteSet.CITY, filth)
    t.sprite_tile = 3
    (level.backdrop if backdrop else level).tiles[(layer, 0, 0)] = t
    got = segments(save(level))
    require(len(got) == 1, "one segment")
    for k, v in got.items():
        if layer == 19 and not backdrop:
            compare(v, dust=dust_of(t), surface=surface_of(t))
        elif not backdrop:
            compare(v)


@cases(shape=list(TileShape), filth=[FILTHS[0], FILTHS[6]])
def case_shapes(shape, filth):
    level = Level()
    t = any_tile("t", shape, TileSpriteSet.CITY, filth)
    t.sprite_tile = 3
    level.tiles[(19, 5, 5)] = t
    for k, v in segments(save(level)).items():
        compare(v, dust=dust_of(t), surface=surface_of(t))


@cases(sset=SETS, layer=[19, 4])
def case_dustblock(sset, layer):
    """every sprite set, abstract sprite index, palette and flags"""
    level = Level()
    level.tiles[(layer, 7, 15)] = t = Tile(TileShape.FULL, tile_flags=u("flags", 3), sprite_set=sset, sprite_tile=u("tile", 8), sprite_palette=u("pal", 4))
    for k, v in segments(save(level)).items():
        compare(v, dustblock=dustblock_of(t) if layer == 19 else 0)


@cases(n=[2, 3], spread=["near", "far", "apart"])
def case_several_tiles(n, spread):
    level = Level()
    tiles = []
    for i in range(n):
        t = any_tile("t" + str(i), TileShape(i), SETS[1 + i], [SETS[i], N, N, SETS[i + 2]])
        t.sprite_tile = [21, 5, 6][i]
        for e in t.edge_data[1:3]:
            e.solid = False
        step = {"near": 1, "far": 15, "apart": 16}[spread]
        level.tiles[(19, 0, (i % 2) * step)] = t
        if i == 2:
            del level.tiles[(19, 0, 0)]
            level.tiles[(19, step * 2, 0)] = t
            tiles[0] = None
        tiles.append(t)
    level.tiles[(18, 0, 0)] = any_tile("o", TileShape.FULL, SETS[5], [M, M, M, M])
    level.tiles[(20, 0, 0)] = Tile(sprite_set=SETS[1], sprite_tile=21)
    dust, surface, block = 0, 0, 0
    got = segments(save(level))
    total = {"dust": 0, "surface": 0, "dustblock": 0, "enemy": 0}
    for v in got.values():
        for k in total:
            total[k] = total[k] + v[k]
    for t in tiles:
        if t is not None:
            dust, surface, block = dust + dust_of(t), surface + surface_of(t), block + dustblock_of(t)
    compare(total, dust=dust, surface=surface, dustblock=block)


@cases(side=[0, 1], other=[(1, 0), (16, 0), (0, 16), (300, 0), (-1, 0), (-17, -300)])
def case_segments_apart(side, other):
    """the totals of one segment do not leak into another"""
    level = Level()
    a = any_tile("a", TileShape.FULL, SETS[1], [M, N, N, N])
    b = any_tile("b", TileShape.FULL, SETS[2], [N, N, SETS[3], N])
    a.sprite_tile, b.sprite_tile = 21, 13
    for e in (a.edge_data[1], a.edge_data[2], b.edge_data[1], b.edge_data[3]):
        e.solid = e.visible = True
        e.filth_spike = False
    pairs = [((0, 0), a), (other, b)]
    if side:
        pairs = pairs[::-1]
    for (x, y), t in pairs:
        level.tiles[(19, x, y)] = t
    e = ent.EnemyBear()
    level.add_entity(other[0] * 48.0 + 5, other[1] * 48.0 + 5, e)
    got = segments(save(level))
    want = {}
    for (x, y), t in pairs:
        key = ((x // 256) & 0xFFFF, (y // 256) & 0xFFFF, (x // 16) & 15, (y // 16) & 15, False)
        w = want.setdefault(key, {"dust": 0, "surface": 0, "dustblock": 0})
        w["dust"] = w["dust"] + dust_of(t)
        w["surface"] = w["surface"] + surface_of(t)
        w["dustblock"] = w["dustblock"] + 1
    enemies = 0
    for key, v in got.items():
        enemies = enemies + v["enemy"]
        w = want.get(key, {})
        require(v["dust"] == w.get("dust", 0), "dust of its own segment")
        require(v["surface"] == w.get("surface", 0), "surface of its own segment")
        require(v["dustblock"] == w.get("dustblock", 0), "dustblocks of its own segment")
    require(enemies == FILTH["enemy_bear"], "enemy total", enemies)
    for key in want:
        require(key in got, "segment of the tile", key)


def make(name):
    cls = getattr(ent, REGISTRY_NAMES[name], None) if name in REGISTRY_NAMES else None
    if cls is None:
        e = Entity()
        e.etype = name
        return e
    return cls()


@cases(name=list(REGISTRY_NAMES) + ["anything", "z_thing", "entity", "enemy_unknown"], twice=[False, True])
def case_enemies(name, twice):
    level = Level()
    e = make(name)
    e.rotation, e.layer, e.flip_x, e.flip_y, e.visible = u("r", 16), u("la", 8), flag("fx"), flag("fy"), flag("vi")
    level.add_entity(9.0, 9.0, e)
    if twice:
        level.add_entity(19.0, 9.0, make("enemy_scrolls"))
        level.add_entity(12.0, 9.0, make(name))
        level.add_entity(12.0, 9.0, make("plain"))
    for v in segments(save(level)).values():
        f = FILTH.get(name, 0)
        compare(v, enemy=f * 2 + FILTH["enemy_scrolls"] if twice else f)


@cases(what=["props", "entities", "empty"])
def case_nothing(what):
    level = Level()
    if what == "props":
        level.add_prop(19, 3.0, 4.0, some_prop("p"))
    elif what == "entities":
        level.add_entity(3.0, 4.0, Entity())
    for v in segments(save(level)).values():
        compare(v)


@cases(n=[5, 20])
def case_many(n):
    """more than the low byte of a total"""
    level = Level()
    want = 0
    for x in range(16):
        for y in range(n if n < 16 else 16):
            t = Tile(TileShape.FULL, sprite_set=SETS[1], sprite_tile=21)
            for e in t.edge_data:
                e.solid = e.visible = True
                e.filth_sprite_set = SETS[1]
            level.tiles[(19, x, y)] = t
            want = want + 1
    for i in range(n * 2):
        level.add_entity(5.0, 5.0 + i, ent.EnemyBear())
    for v in segments(save(level)).values():
        compare(v, dust=want * 4, surface=want * 4, dustblock=want, enemy=n * 2 * FILTH["enemy_bear"])


@cases(how=["filth", "spike", "solid", "visible", "sprite", "tile", "moved", "shared", "enemy", "removed", "reader", "other"])
def case_edited(how):
    """the totals are those of the contents at the time of writing"""
    level = Level()
    a = any_tile("a", TileShape.FULL, SETS[1], [M, N, M, N])
    b = any_tile("b", TileShape.FULL, SETS[2], [N, N, M, N])
    a.sprite_tile, b.sprite_tile = 21, 1
    for t in (a, b):
        for i, e in enumerate(t.edge_data):
            e.solid, e.visible, e.filth_spike = i != 2, True, i == 3
    a.edge_data[0].solid, b.edge_data[1].visible = flag("sa"), flag("vb")
    level.tiles[(19, 2, 3)], level.tiles[(19, 4, 3)] = a, b
    level.add_entity(5.0, 6.0, ent.EnemyBear(), 200)
    data = save(level)
    load(data)
    filth = FILTH["enemy_bear"]
    if how == "reader":
        level = load(data)
        a, b = level.tiles[(19, 2, 3)], level.tiles[(19, 4, 3)]
        a.edge_data[1].filth_sprite_set = M
        a.edge_data[1].filth_spike = flag("n")
        b.edge_data[3].solid = flag("m")
    elif how == "filth":
        a.edge_data[0].filth_sprite_set = N
        a.edge_data[1].filth_sprite_set = M
        b.edge_data[0].filth_sprite_set = M
    elif how == "spike":
        for t, n in ((a, "x"), (b, "y")):
            for i in range(4):
                t.edge_data[i].filth_spike = flag(n + str(i))
    elif how == "solid":
        a.edge_data[0].solid, b.edge_data[3].solid = flag("x"), flag("y")
    elif how == "visible":
        a.edge_data[0].visible, b.edge_data[3].visible = flag("x"), flag("y")
    elif how == "sprite":
        a.sprite_tile = u("n", 8)
        b.sprite_set, b.sprite_tile = SETS[1], 21
    elif how == "tile":
        a = level.tiles[(19, 2, 3)] = any_tile("n", TileShape.HALF_A, SETS[1], [N, M, N, N])
    elif how == "moved":
        del level.tiles[(19, 2, 3)]
        level.tiles[(18, 2, 3)] = a
        a = None
    elif how == "shared":
        level.tiles[(19, 8, 8)] = a
        level.tiles[(19, 9, 8)] = a
    elif how == "enemy":
        level.add_entity(7.0, 6.0, level.entities[200][2], 201)
        level.add_entity(7.0, 6.0, ent.EnemyBook(), 202)
        filth = filth * 2 + FILTH["enemy_book"]
    elif how == "removed":
        del level.entities[200]
        filth = 0
        del level.tiles[(19, 4, 3)]
        b = None
    elif how == "other":
        level = Level()
        level.tiles[(19, 2, 3)] = a = any_tile("n", TileShape.HALF_A, SETS[1], [N, M, N, N])
        b, filth = None, 0
    tiles = [t for t in ([a, a, a, b] if how == "shared" else [a, b]) if t is not None]
    got = segments(save(level))
    require(len(got) == 1, "one segment")
    for v in got.values():
        dust = surface = block = 0
        for t in tiles:
            dust, surface, block = dust + dust_of(t), surface + surface_of(t), block + dustblock_of(t)
        compare(v, dust=dust, surface=surface, dustblock=block, enemy=filth)
