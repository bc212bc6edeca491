"""C34: separately made objects share no mutable state."""

import copy
import io

from dustmaker import entity as ent
from dustmaker import tile as tilemod
from dustmaker.dfreader import DFReader, read_level
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSide, TileSpriteSet
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)
from rules.common import any_tile, save, some_prop
from rules.registry import REGISTRY_NAMES

RULE = (
    "Separation check on the abstract heap: of every pair of objects that were constructed, read or derived separately, one "
    "is overwritten everywhere its public attributes reach (containers edited in place, not rebound) and the other, compared "
    "with a copy of the heap taken before, must be unchanged; so must objects constructed afterwards, the values a caller "
    "passed in, and the module's lookup tables."
)


def spoil_vars(d):
    """edit a variable mapping and everything below it in place"""
    for k in list(d):
        spoil_var(d[k])
    for k in list(d)[:1]:
        del d[k]
    d["spoilt"] = VariableInt(7)


def spoil_var(v):
    if isinstance(v, VariableArray):
        for x in v.value[1]:
            spoil_var(x)
        v.value[1].insert(0, VariableInt(77))
    elif isinstance(v, VariableStruct):
        spoil_vars(v.value)
    else:
        v.value = "spoilt"


def spoil_edge(e):
    e.solid = e.visible = e.caps = e.angles = "spoilt"
    e.filth_sprite_set = e.filth_spike = e.filth_caps = e.filth_angles = "spoilt"


def spoil_tile(t):
    for e in t.edge_data:
        spoil_edge(e)
    t.edge_data.pop()
    t.shape = t.tile_flags = t.sprite_set = t.sprite_tile = t.sprite_palette = "spoilt"


def spoil_prop(p):
    p.layer_sub = p.rotation = p.flip_x = p.flip_y = p.scale = "spoilt"
    p.prop_set = p.prop_group = p.prop_index = p.palette = "spoilt"


def spoil_entity(e):
    spoil_vars(e.variables)
    e.etype = e.rotation = e.layer = e.flip_x = e.flip_y = e.visible = "spoilt"


def spoil_level(l):
    for t in l.tiles.values():
        spoil_tile(t)
    for p in l.props.values():
        spoil_prop(p[3])
    for e in l.entities.values():
        spoil_entity(e[2])
    spoil_vars(l.variables)
    l.tiles[(1, 1, 1)] = "spoilt"
    l.props[1] = "spoilt"
    l.entities[1] = "spoilt"
    l.sshot = "spoilt"
    if l.backdrop is not None:
        spoil_level(l.backdrop)


def spoil_replay(r):
    for p in r.players:
        for k in list(p.intents):
            p.intents[k].append("spoilt")
            p.intents[k][0] = "spoilt"
        p.intents[IntentStream.TAUNT] = "spoilt"
        p.character = "spoilt"
    for k in list(r.entities):
        spoil_data(r.entities[k])
    r.players.append("spoilt")
    r.entities["spoilt"] = "spoilt"
    r.username = r.level = r.frames = r.version = "spoilt"


def spoil_data(d):
    for f in d.frames:
        f.frame = f.x_pos = f.y_pos = f.x_speed = f.y_speed = "spoilt"
    d.frames.append("spoilt")


def spoil(o):
    if isinstance(o, Level):
        spoil_level(o)
    elif isinstance(o, Tile):
        spoil_tile(o)
    elif isinstance(o, TileEdgeData):
        spoil_edge(o)
    elif isinstance(o, Prop):
        spoil_prop(o)
    elif isinstance(o, Entity):
        spoil_entity(o)
    elif isinstance(o, Replay):
        spoil_replay(o)
    elif isinstance(o, PlayerData):
        o.intents[IntentStream.X] = [1]
        o.character = "spoilt"
    elif isinstance(o, EntityData):
        spoil_data(o)
    else:
        spoil_var(o)


def same(a, b, what):
    require_same(a, b, what, order=True)


def tree():
    return {
        "b": VariableBool(flag("b")),
        "i": VariableInt(s("i", 32)),
        "s": VariableString(sbytes("s", 2)),
        "v": VariableVec2((0.5, -1.0)),
        "z": VariableStruct({"q": VariableInt(3), "a": VariableStruct({"x": VariableUInt(4)})}),
        "a": VariableArray(VariableFloat, [VariableFloat(1.5), VariableFloat(2.0)]),
        "aa": VariableArray(VariableArray, [VariableArray(VariableInt, [VariableInt(2)]), VariableArray(VariableInt, [])]),
        "as": VariableArray(VariableStruct, [VariableStruct({"m": VariableInt(1)}), VariableStruct({})]),
    }


CLASSES = ["Entity"] + sorted(REGISTRY_NAMES.values())

MAKERS = {
    "Level": lambda: Level(),
    "Tile": lambda: Tile(),
    "Tile.shape": lambda: Tile(TileShape.BIG_2, sprite_set=TileSpriteSet.CITY),
    "TileEdgeData": lambda: TileEdgeData(),
    "Replay": lambda: Replay(),
    "PlayerData": lambda: PlayerData(),
    "EntityData": lambda: EntityData(),
    "VariableStruct": lambda: VariableStruct(),
    "VariableStruct.empty": lambda: VariableStruct({}),
    "VariableArray": lambda: VariableArray(VariableInt),
    "VariableArray.empty": lambda: VariableArray(VariableInt, []),
    "VariableInt": lambda: VariableInt(),
    "VariableVec2": lambda: VariableVec2(),
}


@cases(kind=list(MAKERS))
def case_constructed(kind):
    """objects made one after the other, before and after an edit"""
    make = MAKERS[kind]
    a, b = make(), make()
    keep = clone(b)
    spoil(a)
    same(b, keep, "object made before the edit")
    same(make(), keep, "object made after the edit")


@cases(name=CLASSES)
def case_entity_class(name):
    cls = getattr(ent, name)
    a, b = cls(), cls()
    keep = clone(b)
    spoil(a)
    same(b, keep, "entity made before the edit")
    same(cls(), keep, "entity made after the edit")


ARRAYS = [
    ("CheckPoint", "trigger_areas"),
    ("FogTrigger", "gradient"),
    ("FogTrigger", "colours"),
    ("FogTrigger", "pers"),
    ("AmbienceTrigger", "sound_names"),
    ("AmbienceTrigger", "sound_vols"),
    ("MusicTrigger", "sound_names"),
    ("MusicTrigger", "sound_vols"),
    ("AIController", "nodes"),
    ("AIController", "node_wait_times"),
    ("CameraNode", "test_widths"),
    ("CameraNode", "nodes"),
    ("CameraNode", "control_widths"),
    ("StringList", "data"),
    ("LevelEnd", "entities"),
]


@cases(pair=ARRAYS)
def case_default_array(pair):
    """a default array edited in place belongs to that entity alone"""
    cls = getattr(ent, pair[0])
    a, b = cls(), cls()
    first = getattr(a, pair[1])
    keep = clone(b)
    first.value[1].append("spoilt")
    same(b, keep, "other entity")
    require(len(getattr(b, pair[1])) == 0, "default array of another entity stays empty")
    require(len(getattr(cls(), pair[1])) == 0, "default array of a new entity stays empty")
    require(len(getattr(a, pair[1])) == 1, "the edited array is the entity's own")


@cases(name=["Entity", "FogTrigger", "CameraNode", "CustomScoreBook"])
def case_entity_argument(name):
    """an entity keeps its own copy of the variables it is given"""
    given = tree()
    keep = clone(given)
    a = getattr(ent, name)(given)
    b = getattr(ent, name)(given)
    own = clone(a)
    spoil(b)
    same(given, keep, "variables passed in, after editing the entity")
    same(a, own, "other entity made from the same variables")
    spoil_vars(given)
    same(a, own, "entity, after editing the variables passed in")


@cases()
def case_container_argument():
    d = {"a": VariableInt(1), "b": VariableInt(2)}
    st, st2 = VariableStruct(d), VariableStruct(d)
    st.value["c"] = VariableInt(3)
    require(list(d) == ["a", "b"] and list(st2.value) == ["a", "b"], "mapping passed to a struct")
    del d["a"]
    require(list(st.value) == ["a", "b", "c"] and list(st2.value) == ["a", "b"], "struct after editing the mapping")
    l = [VariableInt(1), VariableInt(2)]
    ar, ar2 = VariableArray(VariableInt, l), VariableArray(VariableInt, l)
    ar.append(3)
    require(len(l) == 2 and len(ar2) == 2, "list passed to an array")
    del l[0]
    require(len(ar) == 3 and len(ar2) == 2, "array after editing the list")


@cases()
def case_backdrop():
    """a level and its own backdrop"""
    l, o = Level(), Level()
    keep = clone(o)
    back = clone(l.backdrop.tiles), clone(l.backdrop.props), clone(l.backdrop.entities), clone(l.backdrop.variables)
    l.tiles[(19, 0, 0)] = Tile()
    l.add_prop(3, 0.0, 0.0, some_prop())
    l.add_entity(0.0, 0.0, Entity())
    l.variables["x"] = VariableInt(1)
    b = l.backdrop
    require(is_same((b.tiles, b.props, b.entities, b.variables), back), "backdrop after editing its level")
    main = clone(l.tiles), clone(l.props), clone(l.entities), clone(l.variables)
    b.tiles[(4, 1, 1)] = Tile(TileShape.BIG_1)
    b.add_prop(4, 0.0, 0.0, some_prop("q"))
    b.variables["y"] = VariableInt(1)
    require(is_same((l.tiles, l.props, l.entities, l.variables), main), "level after editing its backdrop")
    same(o, keep, "another level")
    require(Level().start_position(1).x == 0, "start of a new level")


@cases(player=[1, 2, 3, 4])
def case_start_position(player):
    l, o = Level(), Level()
    l.start_position(player).x = s("x", 32)
    l.start_position(player).y = s("y", 32)
    for p in (1, 2, 3, 4):
        require(o.start_position(p).x == 0 and o.start_position(p).y == 0, "start positions of another level")
        if p != player:
            require(l.start_position(p).x == 0 and l.start_position(p).y == 0, "start of another player")
    require(l.start_position(player).x == s("x", 32) and l.start_position(player).y == s("y", 32), "start of this player")


def sample():
    l = Level()
    l.variables["t"] = VariableStruct(tree())
    twin = any_tile("t", TileShape.HALF_B, TileSpriteSet.CITY, [TileSpriteSet(k) for k in (1, 2, 0, 5)])
    for i, pos in enumerate([(19, 5, 5), (19, 6, 5), (19, 40, 5), (12, 5, 5)]):
        l.tiles[pos] = copy.deepcopy(twin)
    for i in range(3):
        l.add_prop(5, 10.0 * i, 5.0, some_prop("p"))
    for name in ["Entity", "Entity", "FogTrigger", "FogTrigger", "CameraNode"]:
        e = getattr(ent, name)({"a": VariableArray(VariableInt, [VariableInt(1)]), "s": VariableStruct({"q": VariableInt(2)})})
        e.etype = e.etype if name != "Entity" else "thing"
        l.add_entity(30.0, 40.0, e)
    l.backdrop.tiles[(4, 3, 2)] = copy.deepcopy(twin)
    l.backdrop.tiles[(4, 4, 2)] = copy.deepcopy(twin)
    return l


@cases()
def case_read_twice():
    """two reads of the same bytes"""
    data = save(sample())
    a, b = read_level(data), read_level(data)
    keep = clone(b)
    spoil(a)
    same(b, keep, "level read before the edit")
    same(read_level(data), keep, "level read after the edit")


@cases(what=["tile", "prop", "entity", "backdrop", "variables"], i=[0, 1, 2, 3, 4])
def case_read_parts(what, i):
    """the parts of one level that was read are separate even where they are equal"""
    l = read_level(save(sample()))
    parts = {
        "tile": lambda: list(l.tiles.values()),
        "prop": lambda: [p[3] for p in l.props.values()],
        "entity": lambda: [e[2] for e in l.entities.values()],
        "backdrop": lambda: list(l.backdrop.tiles.values()),
        "variables": lambda: [Entity(l.variables)],
    }[what]()
    if i >= len(parts):
        require(True, "no such part")
        return
    if what == "variables":
        keep = clone((l.tiles, l.props, l.entities, l.backdrop.tiles))
        spoil_vars(l.variables)
        require(is_same((l.tiles, l.props, l.entities, l.backdrop.tiles), keep), "contents after editing the level's variables")
        return
    keep = clone(parts)
    rest = clone((list(l.tiles.values()), list(l.backdrop.tiles.values()), l.variables))
    spoil(parts[i])
    for j in range(len(parts)):
        if j != i:
            same(parts[j], keep[j], what + " " + str(j) + " after editing " + str(i))
    same(l.variables, rest[2], "variables")
    if what != "tile":
        same(list(l.tiles.values()), rest[0], "tiles")
    if what != "backdrop":
        same(list(l.backdrop.tiles.values()), rest[1], "backdrop tiles")


@cases(name=["b", "i", "s", "v", "z", "a", "aa", "as"] + ["all"])
def case_read_variables(name):
    """the nested parts of one variable that was read"""
    whole = VariableStruct({k: v for k, v in tree().items() if name in ("all", k)})
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_var_file(b"DF_STA", dict(whole.value, twin=whole))
    w.close()
    a = DFReader(io.BytesIO(buf.getvalue())).read_var_file(b"DF_STA")
    b = DFReader(io.BytesIO(buf.getvalue())).read_var_file(b"DF_STA")
    keep = clone(b)
    spoil(a["twin"])
    for k in a:
        if k != "twin":
            same(a[k], keep[k], "member " + k)
    same(b, keep, "second read")


ELEMENTS = {
    "bool": lambda: VariableBool(True),
    "int": lambda: VariableInt(0),
    "uint": lambda: VariableUInt(1),
    "float": lambda: VariableFloat(0.0),
    "string": lambda: VariableString(b""),
    "text": lambda: VariableString(b"text"),
    "vec2": lambda: VariableVec2((0.0, 0.0)),
    "struct": lambda: VariableStruct({}),
    "members": lambda: VariableStruct({"x": VariableInt(1), "y": VariableStruct({})}),
    "array": lambda: VariableArray(VariableInt, []),
    "items": lambda: VariableArray(VariableUInt, [VariableUInt(5), VariableUInt(5)]),
}


@cases(kind=list(ELEMENTS), how=["bare", "n0", "n1", "n2", "n9", "member", "nested"])
def case_read_alike(kind, how):
    """equal variables next to each other in one file, empty ones and common values too"""

    def make():
        e = ELEMENTS[kind]()
        if how == "bare":
            return e
        if how == "member":
            return VariableStruct({"e": e, "f": ELEMENTS[kind]()})
        if how == "nested":
            return VariableArray(VariableArray, [VariableArray(type(e), [e]), VariableArray(type(e), []), VariableArray(type(e), [ELEMENTS[kind]()])])
        return VariableArray(type(e), [ELEMENTS[kind]() for _ in range(int(how[1:]))])

    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_var_file(b"DF_STA", {"a": make(), "b": make(), "c": VariableStruct({"d": make()})})
    w.close()
    a = DFReader(io.BytesIO(buf.getvalue())).read_var_file(b"DF_STA")
    b = DFReader(io.BytesIO(buf.getvalue())).read_var_file(b"DF_STA")
    keep = clone(b)
    spoil(a["b"])
    same(a["a"], keep["a"], "equal variable before")
    same(a["c"], keep["c"], "equal variable after")
    same(b, keep, "second read")
    same(DFReader(io.BytesIO(buf.getvalue())).read_var_file(b"DF_STA"), keep, "read after the edit")
    l = Level()
    for i in range(3):
        e = Entity({"a": make(), "b": make()} if i else {})
        e.etype = "thing"
        l.add_entity(30.0 * i, 40.0, e)
    l.variables["a"] = make()
    l = read_level(save(l))
    ents = [e for _, _, e in l.entities.values()]
    keep = clone((ents[0], ents[1], l.variables))
    spoil(ents[2])
    same((ents[0], ents[1], l.variables), keep, "the rest of the level")
    spoil(ents[0])
    same((ents[1], l.variables), keep[1:], "the rest of the level")


@cases(kind=["plain", "dust", "zero"], shape=[TileShape.FULL, TileShape.HALF_A, TileShape.SMALL_6])
def case_read_tiles(kind, shape):
    """equal tiles of one file, in one segment and in others, are separate"""
    l = Level()
    spots = [(19, 0, 0), (19, 1, 0), (19, 17, 0), (19, -1, -1), (5, 0, 0)]
    for pos in spots:
        t = Tile(shape)
        if kind == "dust":
            t.edge_data[0].filth_sprite_set = t.edge_data[1].filth_sprite_set = TileSpriteSet.CITY
        elif kind == "zero":
            t.tile_flags = t.sprite_tile = 0
            t.sprite_set = TileSpriteSet.NONE_0
        l.tiles[pos] = t
    l.backdrop.tiles[spots[0]] = copy.deepcopy(l.tiles[spots[0]])
    data = save(l)
    a, b = read_level(data), read_level(data)
    keep = clone(b)
    for pos in spots:
        edge = a.tiles[pos].edge_data[1]
        one = clone(edge)
        spoil_edge(edge)
        same([e for i, e in enumerate(a.tiles[pos].edge_data) if i != 1], [e for i, e in enumerate(keep.tiles[pos].edge_data) if i != 1], "the other edges of the tile")
        for other in spots:
            if other != pos:
                same(a.tiles[other], keep.tiles[other], "tile elsewhere")
        same(a.backdrop.tiles, keep.backdrop.tiles, "backdrop")
        a.tiles[pos].edge_data[1] = one
    spoil_level(a)
    same(b, keep, "second read")


@cases(version=[1, 3, 4], i=[0, 1])
def case_read_replay(version, i):
    rep = Replay(version=version, username=b"u", level=b"l", frames=6)
    for n in range(1 if version == 1 else 2):
        p = PlayerData(Character.DUSTKID)
        for k in IntentStream:
            p.intents[k] = [0, 0, 1, 1, 0, 0] if k not in (IntentStream.MOUSE_X, IntentStream.MOUSE_Y) else [0.0, 0.0, 0.5, 0.0, 0.0, 0.0]
        rep.players.append(p)
    rep.entities[9] = EntityData([EntityFrame(1, 1.5, 2.5, 3.5, 4.5), EntityFrame(1, 1.5, 2.5, 3.5, 4.5)])
    rep.entities[2] = EntityData([])
    rep.entities[3] = EntityData([])
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep)
    w.close()
    a = DFReader(io.BytesIO(buf.getvalue())).read_replay()
    b = DFReader(io.BytesIO(buf.getvalue())).read_replay()
    keep = clone(b)
    if i < len(a.players):
        p = a.players[i]
        for k in list(p.intents):
            rest = {q: list(v) for q, v in p.intents.items() if q != k}
            p.intents[k].append("spoilt")
            require(is_same({q: v for q, v in p.intents.items() if q != k}, rest), "other streams of the player")
        for j in range(len(a.players)):
            if j != i:
                same(a.players[j], keep.players[j], "other player")
        for k in a.entities:
            if k != 9:
                d = clone({q: v for q, v in a.entities.items() if q != k})
                spoil_data(a.entities[k])
                require(is_same({q: v for q, v in a.entities.items() if q != k}, d), "other entities")
        f = clone(a.entities[9].frames[1])
        a.entities[9].frames[0].x_pos = "spoilt"
        same(a.entities[9].frames[1], f, "other frame")
    spoil(DFReader(io.BytesIO(buf.getvalue())).read_replay())
    same(b, keep, "second read")
    same(DFReader(io.BytesIO(buf.getvalue())).read_replay(), keep, "later read")


@cases(shape=list(TileShape), factor=[2, 3])
def case_upscaled(shape, factor):
    """tiles made by upscaling are separate from each other and from the tile they came from"""
    t = any_tile("t", shape, TileSpriteSet.CITY, [TileSpriteSet(k) for k in (1, 2, 3, 5)])
    keep = clone(t)
    parts = [x[2] for x in t.upscale(factor)]
    other = clone(parts)
    spoil(t)
    same(parts, other, "upscaled tiles after editing the source")
    t = clone(keep)
    parts = [x[2] for x in t.upscale(factor)]
    for i in range(len(parts)):
        rest = clone(parts)
        spoil(parts[i])
        same(t, keep, "source after editing an upscaled tile")
        for j in range(i + 1, len(parts)):
            same(parts[j], rest[j], "another upscaled tile")


@cases(shape=list(TileShape))
def case_deepcopy(shape):
    """a deep copy is equal and separate"""
    t = any_tile("t", shape, TileSpriteSet.CITY, [TileSpriteSet(k) for k in (1, 2, 3, 5)])
    l = sample()
    for o in (t, l, Entity(tree()), VariableStruct(tree())):
        c = copy.deepcopy(o)
        same(c, o, "deep copy")
        keep = clone(c)
        spoil(o)
        same(c, keep, "deep copy after editing the original")


@cases()
def case_tables():
    """use of the library leaves its lookup tables alone"""
    names = ["SHAPE_VERTEXES", "SHAPE_ORDERED_SIDES", "SIDE_CLOCKWISE_INDEX", "SPRITE_SET_DUSTBLOCK_TILE"]
    keep = [clone(getattr(tilemod, n)) for n in names]
    l = sample()
    l.calculate_edge_visibility()
    l.calculate_edge_caps()
    l.upscale(2)
    data = save(l)
    spoil(read_level(data))
    for t in list(l.tiles.values())[:2]:
        t.set_dustblock()
        spoil(t)
    for n, k in zip(names, keep):
        same(getattr(tilemod, n), k, n)
