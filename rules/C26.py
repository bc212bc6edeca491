"""C26: equality and hashing of tiles and variables are coherent."""

import copy

from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)
from rules.common import any_tile

RULE = (
    "For every attribute of a tile and of each of its four edges, two otherwise equal abstract tiles get independent abstract "
    "values of that attribute: they must compare equal exactly when the values agree, hash equally when equal, and find each "
    "other in sets. The same for every variable type, for nested structs and arrays, for member order, length and element "
    "types. Copies (shallow, deep) are equal and deep copies independent. Comparison with foreign objects is unequal both ways."
)

SETS = list(TileSpriteSet)


class Foreign:
    pass


def others():
    return [None, 0, 1, 1.5, "a", b"a", (), (1, 2), [], {}, Foreign(), object, True, False]


def agree(a, b, same, what):
    """a, b: objects; same: condition under which they must be equal"""
    require((a == b) == same, what + ": equal exactly when the values agree", same)
    require((b == a) == same, what + ": equality is symmetric", same)
    require((a != b) == (not same), what + ": unequal exactly when the values differ", same)
    if same:
        require(hash(a) == hash(b), what + ": equal ones hash equally")
        require(b in {a} and len({a, b}) == 1, what + ": equal ones are one member of a set")
        require({a: 1}[b] == 1, what + ": equal ones are the same key")


def plain(a, what):
    require(a == a, what + ": equal to itself")
    require(hash(a) == hash(a), what + ": the hash is stable")
    for o in others():
        require((a == o) == False, what + ": unequal to other objects", type_name(o))
        require((o == a) == False, what + ": other objects are unequal to it", type_name(o))
        require((a != o) == True, what + ": differs from other objects", type_name(o))


def edit_free(a, what):
    """copies"""
    b = copy.deepcopy(a)
    require(b is not a and a == b and hash(a) == hash(b), what + ": a deep copy is equal")
    c = copy.copy(a)
    require(c is not a and a == c and hash(a) == hash(c), what + ": a copy is equal")
    return b


# ---------------------------------------------------------------- tiles
TILE_WORDS = {"tile_flags": 8, "sprite_tile": 8, "sprite_palette": 8}
EDGE_PAIRS = ["caps", "angles", "filth_caps", "filth_angles"]


def one(n, shape=TileShape.BIG_3):
    return any_tile(n, shape, TileSpriteSet.LABORATORY, [TileSpriteSet.FOREST, TileSpriteSet.NONE_0, TileSpriteSet.CITY, TileSpriteSet.MANSION])


@cases(shape=list(TileShape))
def case_tile_copy(shape):
    t = one("t", shape)
    plain(t, "tile")
    b = edit_free(t, "tile")
    for i in range(4):
        b.edge_data[i].solid = not b.edge_data[i].solid
        require(t != b, "changing an edge of a deep copy makes it unequal", i)
        require(t == copy.deepcopy(t), "changing a deep copy leaves the original alone")
        b.edge_data[i].solid = not b.edge_data[i].solid
    require(t == b and hash(t) == hash(b), "changing it back makes it equal again")
    for other in TileShape:
        c = copy.deepcopy(t)
        c.shape = other
        agree(t, c, other == shape, "tile shape")
    require(Tile(shape) == Tile(shape) and hash(Tile(shape)) == hash(Tile(shape)), "tiles built alike are equal")


@cases(attr=list(TILE_WORDS))
def case_tile_words(attr):
    a = one("t")
    b = copy.deepcopy(a)
    x, y = u("x", TILE_WORDS[attr]), u("y", TILE_WORDS[attr])
    setattr(a, attr, x)
    setattr(b, attr, y)
    agree(a, b, x == y, "tile " + attr)


@cases(x=SETS)
def case_sprite_sets(x):
    a = one("t")
    a.sprite_set = x
    for y in SETS:
        b = copy.deepcopy(a)
        b.sprite_set = y
        agree(a, b, x == y, "tile sprite set")


@cases(side=[0, 1, 2, 3], attr=["solid", "visible", "filth_spike"])
def case_edge_flags(side, attr):
    a = one("t")
    b = copy.deepcopy(a)
    x, y = flag("x"), flag("y")
    setattr(a.edge_data[side], attr, x)
    setattr(b.edge_data[side], attr, y)
    agree(a, b, x == y, "edge " + attr)
    agree(a.edge_data[side], b.edge_data[side], x == y, "edge data " + attr)


@cases(side=[0, 1, 2, 3], attr=EDGE_PAIRS, end=[0, 1])
def case_edge_pairs(side, attr, end):
    a = one("t")
    b = copy.deepcopy(a)
    old = getattr(a.edge_data[side], attr)
    if "caps" in attr:
        x, y = flag("x"), flag("y")
    else:
        x, y = s("x", 8), s("y", 8)
    for obj, v in ((a, x), (b, y)):
        new = [old[0], old[1]]
        new[end] = v
        setattr(obj.edge_data[side], attr, (new[0], new[1]))
    agree(a, b, x == y, "edge " + attr)
    agree(a.edge_data[side], b.edge_data[side], x == y, "edge data " + attr)


@cases(side=[0, 1, 2, 3], x=SETS)
def case_edge_filth(side, x):
    a = one("t")
    a.edge_data[side].filth_sprite_set = x
    for y in SETS:
        b = copy.deepcopy(a)
        b.edge_data[side].filth_sprite_set = y
        agree(a, b, x == y, "edge filth")


@cases(i=[0, 1, 2, 3], j=[0, 1, 2, 3])
def case_edge_order(i, j):
    """the same edge data on another side is another tile"""
    a, b = Tile(TileShape.FULL), Tile(TileShape.FULL)
    a.edge_data[i].solid = True
    b.edge_data[j].solid = True
    agree(a, b, i == j, "side of the edge data")
    require(TileEdgeData() == TileEdgeData() and hash(TileEdgeData()) == hash(TileEdgeData()), "edge data built alike are equal")
    for o in others():
        require(TileEdgeData() != o, "edge data differ from other objects")


# ---------------------------------------------------------------- variables
def scalars():
    return {
        "bool": (VariableBool, flag("x"), flag("y")),
        "int": (VariableInt, s("x", 7), s("y", 7)),
        "uint": (VariableUInt, u("x", 7), u("y", 7)),
        "float": (VariableFloat, dyadic("x", 7, 2, True), dyadic("y", 7, 2, True)),
        "string": (VariableString, sbytes("x", 1), sbytes("y", 1)),
        "vec2 x": (VariableVec2, (dyadic("x", 7, 2, True), 1.5), (dyadic("y", 7, 2, True), 1.5)),
        "vec2 y": (VariableVec2, (1.5, dyadic("x", 7, 2, True)), (1.5, dyadic("y", 7, 2, True))),
    }


KINDS = ["bool", "int", "uint", "float", "string", "vec2 x", "vec2 y"]
WRAPS = ["plain", "struct", "array", "array second", "struct in array", "array in struct", "array in array", "struct in struct"]


def wrap(how, v):
    if how == "plain":
        return v
    if how == "struct":
        return VariableStruct({"k": VariableInt(3), "v": v})
    if how == "array":
        return VariableArray(type(v), [v])
    if how == "array second":
        return VariableArray(type(v), [type(v)(), v, type(v)()])
    if how == "struct in array":
        return VariableArray(VariableStruct, [VariableStruct({"v": v})])
    if how == "array in struct":
        return VariableStruct({"v": VariableArray(type(v), [v])})
    if how == "array in array":
        return VariableArray(VariableArray, [VariableArray(type(v), [v])])
    return VariableStruct({"s": VariableStruct({"v": v}), "t": VariableBool(True)})


@cases(kind=KINDS, how=WRAPS)
def case_variable_values(kind, how):
    cls, x, y = scalars()[kind]
    a, b = wrap(how, cls(x)), wrap(how, cls(y))
    agree(a, b, x == y, how + " of " + kind)
    plain(a, how + " of " + kind)
    edit_free(a, how + " of " + kind)
    same = wrap(how, cls(x))
    require(a == same and hash(a) == hash(same), how + " of " + kind + ": built alike are equal")


def samples():
    return [
        VariableBool(False),
        VariableBool(True),
        VariableInt(0),
        VariableInt(1),
        VariableUInt(0),
        VariableUInt(1),
        VariableFloat(0.0),
        VariableFloat(1.0),
        VariableString(b""),
        VariableString(b"a"),
        VariableString(b"a\0"),
        VariableVec2((0.0, 0.0)),
        VariableVec2((0.0, 1.0)),
        VariableVec2((1.0, 0.0)),
        VariableStruct(),
        VariableStruct({"a": VariableInt(0)}),
        VariableStruct({"a": VariableInt(1)}),
        VariableStruct({"a": VariableUInt(0)}),
        VariableStruct({"a": VariableBool(False)}),
        VariableStruct({"b": VariableInt(0)}),
        VariableStruct({"a": VariableInt(0), "b": VariableInt(1)}),
        VariableStruct({"a": VariableInt(1), "b": VariableInt(0)}),
        VariableArray(VariableInt),
        VariableArray(VariableUInt),
        VariableArray(VariableStruct),
        VariableArray(VariableArray),
        VariableArray(VariableInt, [VariableInt(0)]),
        VariableArray(VariableInt, [VariableInt(0), VariableInt(0)]),
        VariableArray(VariableUInt, [VariableUInt(0)]),
        VariableArray(VariableInt, [VariableInt(0), VariableInt(1)]),
        VariableArray(VariableInt, [VariableInt(1), VariableInt(0)]),
        VariableArray(VariableArray, [VariableArray(VariableInt)]),
        VariableArray(VariableArray, [VariableArray(VariableUInt)]),
        VariableArray(VariableStruct, [VariableStruct()]),
        VariableArray(VariableBool, [VariableBool(False)]),
    ]


@cases(i=list(range(35)))
def case_distinct_variables(i):
    a = samples()[i]
    b = samples()
    require(len(b) == 35, "samples")
    for j in range(35):
        agree(a, b[j], i == j, "variables " + str(i) + " and " + str(j))


EQUAL = {
    "zeros": (VariableFloat, 0.0, -0.0),
    "zero pair": (VariableVec2, (0.0, -0.0), (-0.0, 0.0)),
    "int and bool": (VariableInt, 1, True),
    "uint and bool": (VariableUInt, 0, False),
    "text": (VariableString, b"ab", bytes([97, 98])),
    "infinities": (VariableFloat, float("inf"), 1e400),
    "large": (VariableFloat, 1e22, 10.0**22),
}


TWINS = {
    # different values with equal hashes
    "int": (VariableInt, -1, -2),
    "uint": (VariableUInt, 0, 1),
    "float": (VariableFloat, -1.0, -2.0),
    "large float": (VariableFloat, 1.0, 2.0**61),
    "infinity": (VariableFloat, float("inf"), 314159.0),
    "vec2": (VariableVec2, (-1.0, 0.0), (-2.0, 0.0)),
    "large vec2": (VariableVec2, (0.5, 1.0), (0.5, 2.0**61)),
}


@cases(kind=list(TWINS), how=WRAPS)
def case_hash_twins(kind, how):
    """a comparison looks at the values, not only at their hashes"""
    cls, p, q = TWINS[kind]
    a, b = wrap(how, cls(p)), wrap(how, cls(q))
    require(a != b and not a == b, how + " of " + kind + ": different values differ", p, q)
    require(a == wrap(how, cls(p)), how + " of " + kind + ": equal values are equal", p)


@cases(field=["tile", "palette", "flags", "angles", "filth_angles"])
def case_tile_twins(field):
    a, b = Tile(), Tile()
    if field == "angles":
        a.edge_data[2].angles, b.edge_data[2].angles = (-1, 0), (-2, 0)
    elif field == "filth_angles":
        a.edge_data[1].filth_angles, b.edge_data[1].filth_angles = (3, -2), (3, -1)
    else:
        name = {"tile": "sprite_tile", "palette": "sprite_palette", "flags": "tile_flags"}[field]
        setattr(a, name, 1)
        setattr(b, name, 2)
    require(a != b and not a == b, "tiles with different " + field + " differ")


@cases(kind=list(EQUAL), how=WRAPS)
def case_equal_values(kind, how):
    """values that are equal but do not look alike"""
    cls, x, y = EQUAL[kind]
    agree(wrap(how, cls(x)), wrap(how, cls(y)), True, how + " of " + kind)


def case_equal_tiles():
    """attributes that are equal but of another type"""
    a, b = Tile(TileShape.BIG_1, sprite_tile=1), Tile(1, sprite_tile=True)
    agree(a, b, True, "shape given as a number")
    b.edge_data[0].caps = (0, 0)
    b.edge_data[1].solid = 0
    b.edge_data[2].angles = (0.0, -0.0)
    b.edge_data[3].filth_sprite_set = 0
    agree(a, b, True, "edge data given as other types")


def case_struct_order():
    x, y = s("x", 32), u("y", 32)
    a = VariableStruct({"p": VariableInt(x), "q": VariableUInt(y), "r": VariableString(b"z")})
    b = VariableStruct({"r": VariableString(b"z"), "q": VariableUInt(y), "p": VariableInt(x)})
    agree(a, b, True, "order of struct members")


def case_struct_order_plain():
    for n in range(3):
        a = VariableStruct({"p": VariableInt(n), "q": VariableUInt(2)})
        b = VariableStruct({"q": VariableUInt(2), "p": VariableInt(n)})
        agree(a, b, True, "order of struct members")
        agree(VariableArray(VariableStruct, [a]), VariableArray(VariableStruct, [b]), True, "order of members of an array's struct")


@cases(kind=KINDS)
def case_wide_copies(kind):
    cls = scalars()[kind][0]
    wide = {
        "int": s("w", 32),
        "uint": u("w", 32),
        "float": real("w", -1e9, 1e9),
        "string": sbytes("w", 9),
        "bool": flag("w"),
        "vec2 x": (real("w", -1e9, 1e9), 0.0),
        "vec2 y": (0.0, real("w", -1e9, 1e9)),
    }[kind]
    for how in WRAPS:
        a = wrap(how, cls(wide))
        plain(a, how + " of " + kind)
        b = edit_free(a, how + " of " + kind)
        if how == "struct":
            b.value["v"].value = cls().value
            require(a.value["v"].value == wide, "changing a deep copy leaves the original alone")
        if how == "array":
            b[0] = cls().value
            require(a[0] == wide, "changing a deep copy leaves the original alone")
