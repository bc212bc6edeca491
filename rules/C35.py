"""C35: saving is reproducible and saving again changes nothing."""

import io

from dustmaker import entity as ent
from dustmaker.dfreader import DFReader, read_level
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableType,
    VariableUInt,
    VariableVec2,
)
from rules.common import any_tile, save, some_prop
from rules.registry import REGISTRY_NAMES

RULE = (
    "Abstract levels, variable files and replays are written, read and written again; the two abstract files must be equal "
    "bit for bit. Levels that hold the same contents, entered in different orders, must give equal files as far as the order "
    "is not part of the content (tiles, edges); props, entities and struct members keep the order they were entered in."
)


def tree(n):
    return {
        "b": VariableBool(flag(n + "b")),
        "i": VariableInt(s(n + "i", 32)),
        "u": VariableUInt(u(n + "u", 32)),
        "f": VariableFloat(dyadic(n + "f", 16, 4, True)),
        "s": VariableString(sbytes(n + "s", 3)),
        "v": VariableVec2((dyadic(n + "v", 16, 4, True), 0.5)),
        "z": VariableStruct({"q": VariableInt(3), "a": VariableStruct({})}),
        "sa": VariableArray(VariableString, [VariableString(sbytes(n + "t", 2)), VariableString(b"")]),
        "aa": VariableArray(VariableArray, [VariableArray(VariableInt, [VariableInt(s(n + "j", 32))])]),
    }


def settled(l, what):
    first = save(l)
    back = read_level(first)
    second = save(back)
    require(first == second, what + ": saved again after loading")
    require(save(l) == first, what + ": saved twice")
    third = save(read_level(second))
    require(third == first, what + ": saved a third time")


POS = [(0, 0), (15, 15), (16, 0), (255, 255), (256, 0), (-1, -1), (-16, -256), (-257, 3)]
SETS = [None, (1, 0, 0, 0), (0, 2, 0, 5), (1, 2, 3, 4)]


@cases(layer=[0, 5, 12, 18, 19, 20], sets=SETS, pos=POS)
def case_tile(layer, sets, pos):
    l = Level()
    l.tiles[(layer, pos[0], pos[1])] = any_tile("t", TileShape.HALF_A, TileSpriteSet.NEXUS, None if sets is None else [TileSpriteSet(x) for x in sets])
    l.tiles[(layer, pos[0] + 1, pos[1])] = any_tile("o", TileShape.BIG_8)
    settled(l, "tiles")


@cases(shape=list(TileShape))
def case_shape(shape):
    l = Level()
    l.tiles[(19, 3, 4)] = any_tile("t", shape, TileSpriteSet.CITY, [TileSpriteSet(k) for k in (1, 2, 0, 3)])
    l.tiles[(18, 3, 4)] = any_tile("o", shape)
    l.backdrop.tiles[(4, 3, 4)] = any_tile("b", shape)
    settled(l, "tiles")


@cases(k=range(56))
def case_prop_scale(k):
    """every prop size the format has"""
    l = Level()
    l.add_prop(5, 30.0, -40.0, some_prop("p", 50.0 ** ((k - 32) / 24.0)))
    settled(l, "prop of size step " + str(k))


@cases(scale=[0.02, 0.1, 0.33, 0.5, 0.75, 0.9, 1.0, 1.1, 1.5, 2.0, 3.14, 5.0, 10.0, 30.0])
def case_prop_between(scale):
    """sizes between the steps settle at once"""
    l = Level()
    l.add_prop(5, 30.0, -40.0, some_prop("p", scale))
    settled(l, "prop of size " + str(scale))


PPOS = [(0.0, 0.0), (700.5, 5.25), (-3.5, -3.75), (-1.25, 0.5), (12288.0, -12288.5), (-700.0, 15.99), (767.9, 768.0), (-768.0, -767.9)]


@cases(pos=PPOS, layer=[0, 5, 19, 20])
def case_prop_position(pos, layer):
    l = Level()
    pos = int(pos[0]), int(pos[1])  # the format holds whole numbers
    l.add_prop(layer, pos[0], pos[1], some_prop("p"))
    l.add_prop(layer, pos[0] + 1, pos[1], some_prop("q"), 7)
    l.backdrop.add_prop(layer, pos[1], pos[0], some_prop("r"))
    settled(l, "props")


@cases(pos=PPOS, name=["Entity", "FogTrigger", "z_thing", "entity", "EnemyBear"])
def case_entity_position(pos, name):
    l = Level()
    for d in (0.0, 0.001, 1 / 3):
        e = getattr(ent, name)(tree("e")) if hasattr(ent, name) else Entity(tree("e"))
        if not hasattr(ent, name):
            e.etype = name
        e.rotation = u("rot", 16)
        e.flip_x, e.flip_y, e.visible = flag("fx"), flag("fy"), flag("vis")
        l.add_entity(pos[0] + d, pos[1] - d, e)
    settled(l, "entities")


@cases(name=sorted(REGISTRY_NAMES.values()))
def case_entity_class(name):
    l = Level()
    l.add_entity(1.5, 2.5, getattr(ent, name)({"k": VariableInt(s("k", 32))}))
    settled(l, "entity")


@cases(v=[0.1, -0.1, 1 / 3, -1 / 3, 1e-9, -1e-9, 1e-12, 12345.678, -12345.678, 2.0**30 + 1e-7, -(2.0**31) + 1.5])
def case_inexact(v):
    """numbers the format cannot hold settle at the first save"""
    l = Level()
    l.variables["f"] = VariableFloat(v)
    l.variables["g"] = VariableVec2((v, -v))
    l.add_entity(v if abs(v) < 2**20 else 0.0, 0.0, Entity({"a": VariableArray(VariableFloat, [VariableFloat(v)])}))
    settled(l, "numbers")


@cases(shot=[0, 1, 5], extra=[False, True])
def case_whole(shot, extra):
    l = Level()
    for k, v in tree("l").items():
        l.variables[k] = v
    l.sshot = sbytes("shot", shot)
    for i, pos in enumerate(POS):
        l.tiles[(19 - i % 3, pos[0], pos[1])] = any_tile("t" + str(i), TileShape(i * 2), TileSpriteSet.FOREST, [TileSpriteSet(i % 8), TileSpriteSet.CITY, TileSpriteSet.NONE_0, TileSpriteSet(7)])
    for i, pos in enumerate(PPOS):
        l.add_prop(i, int(pos[0]), int(pos[1]), some_prop("p" + str(i)), 170 - i)
        l.add_entity(pos[1], pos[0], Entity(tree("e" + str(i % 2))), 90 - i)
    if extra:
        l.backdrop.tiles[(4, 3, 2)] = any_tile("b", TileShape.HALF_B)
        l.backdrop.add_prop(3, 4.0, 5.0, some_prop("bp"), 400)
    settled(l, "level")


@cases(members=[("b",), ("s", "i"), ("z", "b", "sa"), ("aa", "f"), ("v", "u", "s", "b"), ("b", "i", "u", "f", "s", "v", "z", "sa", "aa")], length=[0, 1, 9])
def case_var_file(members, length):
    def write(d):
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        w.write_var_file(b"DF_STA", d)
        w.close()
        return buf.getvalue()

    t = tree("")
    d = {k: t[k] for k in members}
    d["long"] = VariableString(sbytes("long", length))
    d["longs"] = VariableArray(VariableString, [VariableString(b""), VariableString(sbytes("more", length))])
    first = write(d)
    back = DFReader(io.BytesIO(first)).read_var_file(b"DF_STA")
    require(list(back) == list(d), "members keep their order")
    require(write(back) == first, "saved again")
    require(write(d) == first, "saved twice")


@cases(length=[65534, 65535, 65536, 131070, 131071, 200000])
def case_long(length):
    """strings that need continuations"""
    def write(d):
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        w.write_variable(VariableStruct(d))
        w.close()
        return buf.getvalue()

    d = {"a": VariableString(opaque("data", length)), "b": VariableString(opaque("more", 5))}
    first = write(d)
    back = DFReader(io.BytesIO(first)).read_variable(VariableType.STRUCT).value
    require(write(back) == first, "saved again")


STREAMS = [[], [0], [1], [0, 0, 1, 1, 0, 0], [1] * 255, [0] * 254 + [1], [1] * 256, [1] * 600 + [0] * 3, [0] * 520 + [1, 0]]


@cases(version=[1, 3, 4], stream=STREAMS, user=[0, 3])
def case_replay(version, stream, user):
    rep = Replay(version=version, username=sbytes("u", user), level=sbytes("l", 2), frames=u("fr", 32))
    for n in range(1 if version == 1 else 2):
        p = PlayerData(Character.DUSTKID)
        p.intents[IntentStream.JUMP] = list(stream)
        p.intents[IntentStream.X] = [1 - k for k in stream]
        p.intents[IntentStream.MOUSE_X] = [0.25 * k for k in stream]
        rep.players.append(p)
    rep.entities[9] = EntityData([EntityFrame(u("f", 32), 1.5, -2.5, 3.26, 4.126), EntityFrame(2, 3.26, 4.0, -0.005, 6.126)])
    rep.entities[2] = EntityData([])
    rep.entities[5] = EntityData([EntityFrame(1, -214748364.8, 0.05, 21474836.47, 0.0)])

    def write(r):
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        w.write_replay(r)
        w.close()
        return buf.getvalue()

    first = write(rep)
    back = DFReader(io.BytesIO(first)).read_replay()
    require(list(back.entities) == [9, 2, 5], "entities keep their order")
    require(write(back) == first, "saved again")
    require(write(rep) == first, "saved twice")


@cases(order=["reversed", "rotated", "shuffled"], back=[False, True])
def case_tile_order(order, back):
    """the order in which tiles were entered is not part of a level"""
    keys = [(19, 3, 4), (19, 4, 3), (19, 2, 4), (18, 3, 4), (19, -1, -1), (19, 300, 2), (5, 300, 2), (20, 15, 16), (19, 16, 15), (19, -20, 40), (19, 40, -20)]
    other = {"reversed": keys[::-1], "rotated": keys[4:] + keys[:4], "shuffled": keys[::2] + keys[1::2]}[order]
    a, b = Level(), Level()
    for l, ks in ((a, keys), (b, other)):
        for k in ks:
            i = keys.index(k)
            (l.backdrop if back else l).tiles[k] = any_tile("t" + str(i), TileShape(i), TileSpriteSet.FOREST, [TileSpriteSet(i % 8), TileSpriteSet.NONE_0, TileSpriteSet.CITY, TileSpriteSet.NONE_0])
    require(save(a) == save(b), "same tiles, same file")


@cases(kind=["prop", "entity", "mixed"])
def case_interleaved(kind):
    """contents of different parts of the level may be entered in any order"""
    a, b = Level(), Level()
    spots = [(10.0, 20.0), (900.0, 20.0), (-900.0, -20.0), (13000.0, 5.0)]

    def put(l, i):
        x, y = spots[i]
        if kind != "entity":
            l.add_prop(4, x, y, some_prop("p" + str(i)), 50 + i)
        if kind != "prop":
            l.add_entity(x, y, Entity({"k": VariableInt(s("k" + str(i), 32))}), 70 + i)

    for i in (0, 1, 2, 3):
        put(a, i)
    for i in (2, 0, 3, 1):
        put(b, i)
    require(save(a) == save(b), "same contents, same file")


@cases(kind=["prop", "entity"], ids=[(5, 6, 7), (7, 6, 5), (6, 100, 2)])
def case_order_kept(kind, ids):
    """props and entities of one place keep the order they were entered in"""
    l = Level()
    for i in ids:
        if kind == "prop":
            l.add_prop(4, 10.0 + i, 20.0, some_prop("p" + str(i)), i)
        else:
            l.add_entity(10.0 + i, 20.0, Entity(), i)
    back = read_level(save(l))
    require(list(back.props if kind == "prop" else back.entities) == list(ids), "order kept")


@cases(kind=["level", "variables", "replay"])
def case_hash_seed(kind):
    """two processes (with differently seeded hashes) write the same file, and read the same things from it"""
    def write():
        if kind == "replay":
            rep = Replay(version=4, username=b"me", level=b"lvl", frames=9)
            p = PlayerData(Character.DUSTKID)
            for k in (IntentStream.X, IntentStream.JUMP, IntentStream.MOUSE_X, IntentStream.LIGHT):
                p.intents[k] = [0, 1, 0]
            rep.players.extend([p, PlayerData(Character.DUSTGIRL)])
            for k in (9, 2, 70000, 5):
                rep.entities[k] = EntityData([EntityFrame(u("f", 32), 1.5, -2.5, 3.25, 4.125)])
            buf = io.BytesIO()
            w = DFWriter(buf, noclose=True)
            w.write_replay(rep)
            w.close()
            return buf.getvalue()
        if kind == "variables":
            buf = io.BytesIO()
            w = DFWriter(buf, noclose=True)
            w.write_var_file(b"DF_STA", {"m": VariableStruct(tree("m")), "c": VariableInt(1), "a": VariableInt(s("ai", 32))})
            w.close()
            return buf.getvalue()
        l = Level()
        for k, v in tree("l").items():
            l.variables[k] = v
        for i, pos in enumerate(POS):
            l.tiles[(19 - i % 3, pos[0], pos[1])] = any_tile("t" + str(i), TileShape(i * 2), TileSpriteSet.FOREST, [TileSpriteSet(i % 8), TileSpriteSet.CITY, TileSpriteSet.NONE_0, TileSpriteSet(7)])
        for i, pos in enumerate(PPOS):
            l.add_prop(i % 3, int(pos[0]), int(pos[1]), some_prop("p" + str(i)), 170 - i)
            l.add_entity(pos[1], pos[0], [Entity, ent.FogTrigger, ent.EnemyBear, ent.AIController][i % 4](tree("e" + str(i % 2))), 90 - i)
        return save(l)

    def read(data):
        if kind == "replay":
            return DFReader(io.BytesIO(data)).read_replay()
        if kind == "variables":
            return DFReader(io.BytesIO(data)).read_var_file(b"DF_STA")
        return read_level(data)

    hash_order(True)
    one = write()
    a = read(one)
    hash_order(False)
    two = write()
    require(one == two, "the file does not depend on the hash seed")
    require_same(a, read(one), "what is read does not depend on the hash seed", order=True)
