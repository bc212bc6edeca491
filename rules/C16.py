"""C16: serialising or inspecting a model never changes it."""

import copy
import io

from dustmaker import entity as ent
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.transform import TxMatrix
from dustmaker.variable import (
    Variable,
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)
from rules.common import any_tile, save, some_prop
from rules.registry import REGISTRY_NAMES

RULE = (
    "Effect check: the abstract heap reachable from a level, replay or variable is copied before each serialising or "
    "inspecting call and compared afterwards, object by object and with the order of every container; writing twice must "
    "give identical abstract bytes."
)


def tree(n):
    return {
        "b": VariableBool(flag(n + "b")),
        "i": VariableInt(s(n + "i", 32)),
        "u": VariableUInt(u(n + "u", 32)),
        "f": VariableFloat(dyadic(n + "f", 16, 4, True)),
        "s": VariableString(sbytes(n + "s", 3)),
        "v": VariableVec2((dyadic(n + "v", 16, 4, True), 0.5)),
        "z": VariableStruct({"q": VariableInt(3), "a": VariableStruct({})}),
        "sa": VariableArray(VariableString, [VariableString(sbytes(n + "t", 2)), VariableString(b"")]),
        "aa": VariableArray(VariableArray, [VariableArray(VariableInt, [VariableInt(s(n + "j", 32))])]),
    }


def level(kind):
    l = Level()
    if kind == "empty":
        return l
    l.variables["zz"] = VariableInt(1)
    for k, v in tree("l").items():
        l.variables[k] = v
    l.sshot = sbytes("shot", 3)
    for i, pos in enumerate([(5, 5), (4, 5), (20, 3), (-1, -1), (300, 2)]):
        l.tiles[(19 - i % 2, pos[0], pos[1])] = any_tile("t" + str(i), TileShape(i * 4), TileSpriteSet.FOREST, [TileSpriteSet(i), TileSpriteSet.CITY, TileSpriteSet.NONE_0, TileSpriteSet(7)])
    for i, pos in enumerate([(700.0, 5.5), (-3.0, -3.0), (1.0, 2.0)]):
        l.add_prop(5 - i, pos[0], pos[1], some_prop("p" + str(i)), 170 - i)
    for i, name in enumerate(["plain", "z_thing", "entity", "camera_node", "enemy_bear", "", "z_"]):
        e = getattr(ent, REGISTRY_NAMES[name])() if name in REGISTRY_NAMES else Entity(tree("e" + str(i)))
        if name not in REGISTRY_NAMES:
            e.etype = name
        e.rotation = u("er" + str(i), 16)
        l.add_entity(90.0 - 100 * i, 3.5, e, 205 - i)
    l.backdrop.tiles[(4, 3, 2)] = any_tile("b", TileShape.HALF_B)
    l.backdrop.add_prop(3, 4.0, 5.0, some_prop("bp"), 400)
    if kind == "skewed":
        l._next_id = 7
    if kind == "high":
        l.add_entity(0.0, 0.0, Entity(), 4999)
        del l.entities[4999]
    return l


def same(a, b, what):
    require_same(a, b, what, order=True)


KINDS = ["empty", "full", "skewed", "high"]


@cases(kind=KINDS)
def case_write_level(kind):
    l = level(kind)
    keep = clone(l)
    first = save(l)
    same(l, keep, "level after writing it")
    second = save(l)
    same(l, keep, "level after writing it twice")
    require(first == second, "writing twice gives the same bytes")


FILLS = ["bare", "short", "long", "switched"]


@cases(name=sorted(REGISTRY_NAMES.values()), fill=FILLS)
def case_write_entity(name, fill):
    """entities of every class, with arrays of any length, are written as they are"""
    l = Level()
    e = getattr(ent, name)()
    for k in readable(e):
        if k in ARRAYS:
            if fill != "bare":
                arr = getattr(e, k)
                for i in range({"short": 1, "long": 30, "switched": 2}[fill]):
                    arr.insert(i, arr.element_type().value)
        elif fill == "switched" and isinstance(getattr(e, k), bool):
            setattr(e, k, not getattr(e, k))
        elif fill == "long":
            setattr(e, k, getattr(e, k))
    l.add_entity(3.25, 4.5, e, 200)
    l.add_entity(3.25, 4.5, Entity(e.variables), 201)
    keep = clone(l)
    first = save(l)
    same(l, keep, "level after writing it")
    require(first == save(l), "writing twice gives the same bytes")
    same(l, keep, "level after writing it twice")


@cases(kind=KINDS, offsets=[[0], [3], [0, 4]])
def case_write_level_ex(kind, offsets):
    l = level(kind)
    data = sbytes("region", offsets[-1])
    keep, koff = clone(l), list(offsets)
    for chunks in (data, [data[:1], data[1:]]):
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        w.write_level_ex(l, offsets, chunks)
        w.close()
        same(l, keep, "level after rewriting it")
        require(offsets == koff, "offsets after rewriting")


@cases(version=[1, 3, 4], kind=["plain", "long", "neutral", "none"], force=[False, True])
def case_write_replay(version, kind, force):
    rep = Replay(version=version, username=sbytes("u", 3), level=sbytes("l", 2), frames=u("fr", 32))
    for n in range(1 if version == 1 else 2):
        p = PlayerData(Character.DUSTKID)
        if kind != "none":
            p.intents[IntentStream.JUMP] = [0, 0, 1, 2, 0, 0] if kind == "plain" else [1] * 600 + [0] * 20 if kind == "long" else [0, 0, 0]
            p.intents[IntentStream.X] = [-1, -1, 0]
            p.intents[IntentStream.MOUSE_X] = [0.5, 0.5, 0.0]
        rep.players.append(p)
    rep.entities[9] = EntityData([EntityFrame(u("f", 32), 1.5, 2.5, 3.5, 4.5), EntityFrame(2, 3.26, 4.0, 5.0, 6.126)])
    rep.entities[2] = EntityData([])
    keep = clone(rep)

    def out():
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        w.write_replay(rep, force_username=force)
        w.close()
        return buf.getvalue()

    first = out()
    same(rep, keep, "replay after writing it")
    require(first == out(), "writing twice gives the same bytes")
    same(rep, keep, "replay after writing it twice")
    for p in rep.players:
        for i in IntentStream:
            p.get_intent_value(i, 0)
            p.get_intent_value(i, 10000)
            p.get_intent_value(i, -1)
    rep.get_player_entity_data(1)
    rep.get_camera_entity_data(4)
    rep.get_player_entity_data(3)
    repr(rep)
    same(rep, keep, "replay after queries")


@cases(kind=["tree", "long", "long array"])
def case_write_variable(kind):
    max_loop(200000)
    if kind == "tree":
        tr = tree("x")
    elif kind == "long":
        tr = {"s": VariableString(b"q" * 65540)}
    else:
        tr = {"abc": VariableArray(VariableString, [VariableString(b"r" * 65535), VariableString(b"t")])}
    v = VariableStruct(tr)
    keep, ktr = clone(v), clone(tr)

    def out():
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        w.write_variable(v)
        w.close()
        return buf.getvalue()

    first = out()
    same(v, keep, "variable after writing it")
    require(first == out(), "writing twice gives the same bytes")
    for header in (b"DF_CFG", b""):
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        w.write_var_file(header, tr)
        w.close()
        same(tr, ktr, "variable map after writing it to a file")


def readable(o):
    """the read-only properties backed by scalar variables"""
    out = []
    for c in type(o).__mro__:
        for k, v in vars(c).items():
            if isinstance(v, property) and k not in out:
                out.append(k)
    return out


ARRAYS = ("trigger_areas", "gradient", "colours", "pers", "sound_names", "sound_vols", "nodes", "node_wait_times", "test_widths", "control_widths", "entities", "data")


@cases(name=list(REGISTRY_NAMES), filled=[False, True])
def case_entity_queries(name, filled):
    cls = getattr(ent, REGISTRY_NAMES[name], None)
    if cls is None:
        return
    e = cls({"extra": VariableInt(s("x", 32))}, u("rot", 16), u("lay", 8), flag("fx"), flag("fy"), flag("vi"))
    if filled:
        for k in readable(e):
            if k not in ARRAYS:
                setattr(e, k, getattr(e, k))
    keep = clone(e)
    for k in readable(e):
        if k not in ARRAYS:
            getattr(e, k)
            same(e, keep, "entity after reading " + k)
    repr(e)
    same(e, keep, "entity after repr")


@cases(kind=KINDS)
def case_level_queries(kind):
    l = level(kind)
    keep = clone(l)
    l.name, l.virtual_character, l.level_type, l.dustmod_version
    same(l, keep, "level after reading its properties")
    for p in (1, 2, 3, 4):
        pos = l.start_position(p)
        pos.x, pos.y
        same(l, keep, "level after reading a start position")
    l.calculate_max_id(reset=False)
    same(l, keep, "level after calculating the maximum id without reset")
    l.backdrop.calculate_max_id(reset=False)
    same(l, keep, "level after calculating the maximum id of the backdrop")
    for e in l.entities.values():
        repr(e)
    for t in l.tiles.values():
        t.has_filth(), t.is_dustblock(), t.get_sprite_tuple(), t.sprite_path
    for v in l.variables.values():
        repr(v)
        v.assert_types()
    repr(l)
    same(l, keep, "level after queries")


@cases(shape=list(TileShape), filth=[None, [TileSpriteSet.CITY] * 4])
def case_tile_queries(shape, filth):
    t = any_tile("t", shape, TileSpriteSet.CITY, filth)
    o = clone(t)
    o.sprite_tile = 7
    o.edge_data[2].solid = flag("o.solid")
    o.edge_data[3].angles = (-3, t.edge_data[3].angles[1])
    keep, okeep = clone(t), clone(o)
    t.has_filth()
    t.is_dustblock()
    t.get_sprite_tuple()
    same(t, keep, "tile after queries")
    t == o
    t != o
    t == 3
    same(t, keep, "tile after comparison")
    same(o, okeep, "other tile after comparison")
    for f in (1, 2):
        for _ in t.upscale(f):
            pass
        same(t, keep, "tile after computing its upscaled tiles")
    copy.deepcopy(t)
    same(t, keep, "tile after copying it")


@cases(shape=[TileShape.FULL, TileShape.BIG_3, TileShape.SMALL_6, TileShape.HALF_D])
def case_upscaled_apart(shape):
    """the upscaled tiles do not share edges with the original"""
    t = any_tile("t", shape, TileSpriteSet.CITY, [TileSpriteSet.CITY] * 4)
    keep = clone(t)
    for f in (1, 2, 3):
        for _, _, n in t.upscale(f):
            for e in n.edge_data:
                e.solid = not e.solid
                e.caps = (True, True)
                e.angles = (1, 2)
            n.sprite_tile = 77
            n.edge_data.reverse()
        same(t, keep, "tile after changing the upscaled tiles")


@cases(key=list("biufsvz") + ["sa", "aa"])
def case_variable_queries(key):
    v, o = tree("x")[key], tree("y")[key]
    if key == "s":
        o = VariableString(b"abc")
    keep, okeep = clone(v), clone(o)
    repr(v)
    v == o
    v != o
    v == 4
    v.assert_types()
    same(v, keep, "variable after queries")
    same(o, okeep, "other variable after queries")
    if isinstance(v, VariableArray):
        len(v), v.element_type, [x for x in v], v[0]
        same(v, keep, "array after reading it")
    copy.deepcopy(v)
    same(v, keep, "variable after copying it")


@cases(kind=["full"])
def case_deepcopy_level(kind):
    l = level(kind)
    keep = clone(l)
    c = copy.deepcopy(l)
    same(l, keep, "level after copying it")
    c.tiles.clear()
    c.variables["new"] = VariableInt(1)
    c.add_entity(1.0, 2.0, Entity())
    c.backdrop.tiles.clear()
    same(l, keep, "level after changing a copy")


@cases(arr=[0, 3])
def case_constants(arr):
    """shared constants are not changed by use"""
    keep = clone([TxMatrix.IDENTITY, TxMatrix.HFLIP, TxMatrix.VFLIP, list(TxMatrix.ROTATE)])
    l = level("full")
    l.rotate(1 + arr)
    l.flip_horizontal()
    l.upscale(2)
    TxMatrix.IDENTITY.translate(3, 4)
    TxMatrix.IDENTITY * 2
    require_same([TxMatrix.IDENTITY, TxMatrix.HFLIP, TxMatrix.VFLIP, list(TxMatrix.ROTATE)], keep, "matrices")
    a, b = Level(), Level()
    require(len(a.variables) == len(b.variables) and len(a.tiles) == 0 and len(a.entities) == 0, "a new level starts empty")
