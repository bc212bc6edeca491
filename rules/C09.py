"""C09: entities survive a level write/read unchanged and in place."""

from dustmaker import entity as ent
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)
from rules.common import load, save, some_prop
from rules.registry import REGISTRY_NAMES

RULE = (
    "Entities with abstract id, rotation, layer, flips, visibility, variables and position (multiples of 1/128 pixel, "
    "both signs) are traced through write_level and read_level for every registered class and for generic, z_ and "
    "'entity' type names in every mixture of up to three per segment; id, class, type name and all fields must come back."
)

REGISTRY = {k: getattr(ent, v) for k, v in REGISTRY_NAMES.items() if hasattr(ent, v)}


def make(name, n, variables=None):
    """abstract entity with the class registered for the name"""
    cls = REGISTRY.get(name, Entity)
    e = cls(variables, u(n + ".rot", 16), u(n + ".layer", 8), flag(n + ".fx"), flag(n + ".fy"), flag(n + ".vis"))
    if cls is Entity:
        e.etype = name
    return e


def same(want, got, where):
    x, y, a = want
    require(got is not None, where + ": entity present under its id")
    if got is None:
        return
    require(len(got) == 3, where + ": entry")
    require(got[0] == x, where + ": x position", x, got[0])
    require(got[1] == y, where + ": y position", y, got[1])
    b = got[2]
    require(b.etype == a.etype, where + ": type name", a.etype, b.etype)
    require(type(b) is REGISTRY.get(a.etype, Entity), where + ": class", type_name(b))
    require(b.rotation == a.rotation, where + ": rotation", a.rotation, b.rotation)
    require(b.layer == a.layer, where + ": layer", a.layer, b.layer)
    require(b.flip_x == a.flip_x, where + ": flip_x", a.flip_x, b.flip_x)
    require(b.flip_y == a.flip_y, where + ": flip_y", a.flip_y, b.flip_y)
    require(b.visible == a.visible, where + ": visible", a.visible, b.visible)
    require_same(b.variables, a.variables, where + ": variables", order=True)


def check(level, ids, want, where):
    back = load(save(level))
    require(len(back.backdrop.entities) == 0, where + ": no entity in the backdrop")
    require(len(back.entities) == len(ids), where + ": number of entities", len(back.entities), len(ids))
    for i, w in zip(ids, want):
        same(w, back.entities.get(i), where)


@cases(name=list(REGISTRY) + ["some_thing", "", "z", "z_", "zz_a", "Z_b", "entity", "entity_", "entit", "z_unknown", "a", "unknown_type", "z_" + "x" * 61, "q" * 63])
def case_types(name):
    level = Level()
    e = make(name, "e")
    keep = clone(e)
    i = u("id", 31, 1)
    level.add_entity(30.0, 40.0, e, i)
    check(level, [i], [(30.0, 40.0, keep)], "entity")


@cases(n=[1, 2, 3, 6], outline=[False, True])
def case_any_name(n, outline):
    """type name of abstract characters"""
    name = sstr("c", n)
    for ch in name:
        c = ord(ch)
        assume((48 <= c and c <= 57) or (97 <= c and c <= 122) or c == 95)
    if n == 1:
        if outline:
            return
    else:
        assume((ord(name[0]) == 122 and ord(name[1]) == 95) == outline)
    if n == 6:
        assume(ord(name[0]) != 101)
    level = Level()
    e = Entity(None, u("rot", 16), 3, flag("fx"), flag("fy"), flag("vis"))
    e.etype = name
    f = Entity(None, u("rot2", 16), 4, True, False, True)
    f.etype = "z_second"
    level.add_entity(30.0, 40.0, e, 5)
    level.add_entity(31.0, 41.0, f, 6)
    back = load(save(level))
    require(len(back.entities) == 2, "number of entities")
    require(len(back.entities[5][2].etype) == n, "length of the type name")
    require(back.entities[5][2].etype == name, "type name", back.entities[5][2].etype)
    require(back.entities[6][2].etype == "z_second", "type name of the other entity")
    require(back.entities[5][2].rotation == u("rot", 16), "rotation")
    require(back.entities[6][2].rotation == u("rot2", 16), "rotation of the other entity")


def variants(name):
    """type names that look like a registered one"""
    out = [name + x for x in ("0", "1", "9", "_", "2_", "s", "_enemy")] + [x + name for x in ("a", "_", "0", "x_")]
    out += [name[:-1], name[1:], name.upper(), name.lower(), name.capitalize(), name.title(), name.swapcase(), name.replace("_", ""), name.replace("_", "__"), name.split("_")[-1], name.split("_")[0]]
    if name.startswith("z_"):
        out.append(name[2:])
    else:
        out.append("z_" + name)
    seen = []
    for x in out:
        if x and x not in REGISTRY and x not in seen and x != "entity":
            seen.append(x)
    return seen


@cases(name=list(REGISTRY))
def case_similar(name):
    """only the registered names themselves make the registered classes"""
    level = Level()
    names = [name] + variants(name)
    keep = []
    for i, x in enumerate(names):
        e = REGISTRY.get(x, Entity)({"v": VariableInt(s("v", 32))}, u("rot", 16), 5, flag("fx"), False, True)
        e.etype = x
        keep.append((30.0 + i, 40.0, clone(e)))
        level.add_entity(30.0 + i, 40.0, e, 200 + i)
    check(level, [200 + i for i in range(len(names))], keep, "similar name")


@cases(name=["own_thing", "z_own_thing", "enemy_own"], base=["Entity", "EnemyBear", "CheckPoint"], before=["nothing", "read", "read it"])
def case_own_class(name, base, before):
    """a class made by the user, whenever it is made"""
    plain = Level()
    e = Entity({"v": VariableInt(s("v", 32))}, u("rot", 16), 5)
    e.etype = name if before == "read it" else "enemy_bear"
    plain.add_entity(30.0, 40.0, e, 200)
    if before != "nothing":
        back = load(save(plain)).entities[200][2]
        require(back.etype == e.etype and type(back) is REGISTRY.get(e.etype, Entity), "before the class is made")

    class Own(getattr(ent, base)):
        TYPE_IDENTIFIER = name

    level = Level()
    o = Own({"v": VariableInt(s("v", 32))}, u("rot", 16), 5)
    level.add_entity(30.0, 40.0, o, 200)
    b = REGISTRY["enemy_bear"]()
    level.add_entity(31.0, 40.0, b, 201)
    q = Entity()
    q.etype = name + "2"
    level.add_entity(32.0, 40.0, q, 202)
    back = load(save(level))
    require(len(back.entities) == 3, "number of entities")
    got = back.entities[200][2]
    require(type(got) is Own and got.etype == name, "class made by the user", type_name(got), got.etype)
    require(got.variables["v"].value == s("v", 32) and got.rotation == u("rot", 16), "content")
    require(type(back.entities[201][2]) is REGISTRY["enemy_bear"], "other classes stay")
    require(type(back.entities[202][2]) is Entity and back.entities[202][2].etype == name + "2", "other names stay")


def case_twins():
    """entities that differ in a single datum each"""
    level = Level()
    want, ids = [], []
    tree = {"a": VariableInt(1), "b": VariableString(b"x"), "c": VariableFloat(0.5), "d": VariableBool(True)}
    changes = [("rotation", 1), ("rotation", 256), ("layer", 19), ("flip_x", True), ("flip_y", True), ("visible", False), ("etype", "twin2"), ("etype", "z_twin"), ("etype", "z_twin2")]
    values = [{"a": VariableInt(2)}, {"a": VariableUInt(1)}, {"a": VariableBool(True)}, {"a": VariableFloat(1.0)}, {"b": VariableString(b"y")}, {"b": VariableString(b"x0")}, {"b": VariableString(b"")}, {"c": VariableFloat(0.25)}, {"c": VariableFloat(-0.5)}, {"d": VariableBool(False)}, {"e": VariableInt(1)}]
    for i, c in enumerate([None] + changes + values):
        e = Entity(dict(tree))
        e.etype = "twin"
        if isinstance(c, tuple):
            setattr(e, c[0], c[1])
        elif c is not None:
            e.variables.update(c)
        want.append((30.0 + i % 3, 40.0, clone(e)))
        ids.append(level.add_entity(30.0 + i % 3, 40.0, e))
    check(level, ids, want, "twins")


NAMES = ["plain", "enemy_bear", "z_string_list", "z_thing", "entity"]


@cases(a=NAMES, b=NAMES, c=NAMES + [None])
def case_mixture(a, b, c):
    level = Level()
    ids, want = [], []
    for i, name in enumerate([a, b, c]):
        if name is None:
            continue
        e = make(name, "e" + str(i), {"v": VariableUInt(u("v" + str(i), 32))})
        want.append((10.0 * i, 20.5 - i, clone(e)))
        ids.append(300 - i)
        level.add_entity(10.0 * i, 20.5 - i, e, 300 - i)
    check(level, ids, want, "mixture")


SPOTS = [(10.0, 10.0), (800.0, 10.0), (-10.0, 10.0), (-800.0, -800.0), (12300.0, 0.0), (0.0, -12300.0)]


@cases(a=SPOTS, b=SPOTS, na=["plain", "z_thing"], nb=["enemy_bear", "entity", "z_string_list"])
def case_two_places(a, b, na, nb):
    """entities with out-of-line names in the same or in different segments and regions"""
    level = Level()
    p, q = make(na, "p"), make(nb, "q")
    kp, kq = clone(p), clone(q)
    level.add_entity(a[0], a[1], p, 201)
    level.add_entity(b[0], b[1], q, 155)
    check(level, [201, 155], [(a[0], a[1], kp), (b[0], b[1], kq)], "two entities")


@cases(axis=["x", "y"], bits=[14, 20, 28], frac=[0, 3, 7], name=["plain", "z_thing"])
def case_place_any(axis, bits, frac, name):
    """one coordinate ranges over all signed multiples of 1/128 of a width"""
    level = Level()
    e = make(name, "e")
    keep = clone(e)
    c = dyadic("c", bits, frac, True)
    pos = (c, -7.5) if axis == "x" else (100.0, c)
    level.add_entity(pos[0], pos[1], e, 150)
    check(level, [150], [(pos[0], pos[1], keep)], "entity")


@cases(x=[0.001, 0.33, 5.7, 100.99], sg=[1, -1])
def case_resolution(x, sg):
    """positions are kept to 1/128 pixel"""
    level = Level()
    level.add_entity(x * sg, -x * sg, make("plain", "e"), 150)
    got = load(save(level)).entities[150]
    require(abs(got[0] - x * sg) < 1 / 128, "x position to 1/128 pixel", x * sg, got[0])
    require(abs(got[1] + x * sg) < 1 / 128, "y position to 1/128 pixel", -x * sg, got[1])


def variables(kind):
    if kind == "scalars":
        return {
            "b": VariableBool(flag("vb")),
            "i": VariableInt(s("vi", 32)),
            "u": VariableUInt(u("vu", 32)),
            "f": VariableFloat(dyadic("vf", 20, 6, True)),
            "s": VariableString(sbytes("vs", 3)),
            "v": VariableVec2((dyadic("vx", 16, 4, True), 2.5)),
        }
    if kind == "nested":
        return {
            "zlast": VariableStruct({"k": VariableInt(s("vi", 32)), "a": VariableStruct({})}),
            "arr": VariableArray(VariableVec2, [VariableVec2((dyadic("vx", 16, 4, True), -1.0))]),
            "strs": VariableArray(VariableString, [VariableString(b""), VariableString(sbytes("vs", 2))]),
        }
    return {}


@cases(k1=["none", "scalars", "nested"], name=["plain", "camera_node", "z_thing", "entity"])
def case_variables(k1, name):
    level = Level()
    e = make(name, "e", variables(k1))
    keep = clone(e)
    f = make("z_behind", "f", {"after": VariableUInt(u("va", 32))})
    keepf = clone(f)
    level.add_entity(1.5, 2.5, e, 900)
    level.add_entity(3.5, -2.5, f, 800)
    check(level, [900, 800], [(1.5, 2.5, keep), (3.5, -2.5, keepf)], "entity")


@cases(kind=["tile", "dust", "prop", "tile dust prop", "backdrop"], name=["plain", "z_thing"], n=[1, 4])
def case_company(kind, name, n):
    level = Level()
    if "tile" in kind:
        level.tiles[(19, 0, 0)] = Tile(TileShape.FULL, sprite_tile=u("ct", 8))
        level.tiles[(5, 2, 1)] = Tile(TileShape.HALF_A)
    if "dust" in kind:
        t = Tile(TileShape.FULL)
        t.edge_data[0].filth_sprite_set = t.sprite_set
        level.tiles[(19, 3, 3)] = t
    if "prop" in kind:
        level.add_prop(4, 5.0, 6.0, some_prop("p"), 3)
    if "backdrop" in kind:
        level.backdrop.tiles[(3, 0, 0)] = Tile()
        level.backdrop.add_prop(4, 5.0, 6.0, some_prop("p"), 3)
    ids, want = [], []
    for i in range(n):
        e = make(name, "e" + str(i))
        want.append((7.0 * i, 3.0, clone(e)))
        ids.append(50 + i)
        level.add_entity(7.0 * i, 3.0, e, 50 + i)
    check(level, ids, want, "entities")


@cases(n=[12, 40])
def case_many(n):
    level = Level()
    ids, want = [], []
    for i in range(n):
        e = make(["plain", "z_thing", "enemy_wolf", "entity", "z_" + "abc"[i % 3]][i % 5], "e" + str(i))
        pid = 1000 + (i * 37) % 97
        want.append((5.0 * i, -3.0 * i, clone(e)))
        ids.append(pid)
        level.add_entity(5.0 * i, -3.0 * i, e, pid)
    check(level, ids, want, "many entities")


@cases(n=[3, 63, 255, 256], name=["plain", "z_thing"], odd=["z_last", "entity", "enemy_wolf"])
def case_late(n, name, odd):
    """one entity of another kind after many alike"""
    level = Level()
    ids, want = [], []
    for i in range(n + 2):
        e = make(odd if i == n else name, "e")
        e.rotation, e.layer, e.flip_x, e.flip_y, e.visible = i * 97 % 65536, i % 21, i % 2 == 0, i % 3 == 0, i % 5 != 0
        want.append((float(i), i / 4, clone(e)))
        ids.append(100 + i)
        level.add_entity(float(i), i / 4, e, 100 + i)
    check(level, ids, want, "late")


@cases(n=[40, 257, 300], spread=[1, 97])
def case_crowd(n, spread):
    """many entities in one place and in many places"""
    level = Level()
    ids, want = [], []
    for i in range(n):
        name = ["plain", "z_thing", "entity", "enemy_bear", "z_other" + str(i)][i * 7 % 5]
        e = make(name, "e", {"v": VariableUInt(u("v", 32) if i % 50 == 3 else i)})
        e.rotation, e.layer, e.flip_x, e.flip_y, e.visible = i * 97 % 65536, i % 21, i % 2 == 0, i % 3 == 0, i % 5 != 0
        pos = (float(i * spread % 3000), (i * 7 * spread % 2900) / 4)
        want.append((pos[0], pos[1], clone(e)))
        ids.append(7000 - 3 * i)
        level.add_entity(pos[0], pos[1], e, 7000 - 3 * i)
    check(level, ids, want, "crowd")


@cases(name=["plain", "z_thing", "entity", "enemy_bear"], how=["fields", "variable", "variables", "entity", "renamed", "moved", "swapped", "removed", "shared", "other level", "reader"])
def case_edited(name, how):
    """what is written is what the level holds then, whatever was written or read before"""
    level = Level()
    level.add_entity(10.0, 20.5, make(name, "a", {"v": VariableUInt(u("v", 32)), "l": VariableArray(VariableInt, [VariableInt(s("l", 32))])}), 101)
    level.add_entity(15.0, 21.5, make("z_string_list", "b"), 77)
    level.add_entity(9000.0, 20.5, make("other", "c", {"w": VariableBool(flag("w"))}), 300)
    first = save(level)
    load(first)
    x, y, e = level.entities[101]
    if how == "fields":
        e.rotation, e.layer, e.flip_x, e.flip_y, e.visible = u("r", 16), u("la", 8), flag("x"), flag("y"), flag("vi")
    elif how == "variable":
        e.variables["v"].value = u("nv", 32)
        e.variables["l"].value[1].append(VariableInt(s("nl", 32)))
    elif how == "variables":
        del e.variables["v"]
        e.variables["n"] = VariableString(sbytes("n", 3))
    elif how == "entity":
        level.entities[101] = (x, y, make("z_new" if name == "plain" else "new", "n"))
    elif how == "renamed":
        e = make("plain", "n")
        level.entities[101] = (x, y, e)
        save(level)
        e.etype = "z_late"
    elif how == "moved":
        level.entities[101] = (4000.5, 77.25, e)
    elif how == "swapped":
        level.entities[101], level.entities[300] = level.entities[300], level.entities[101]
    elif how == "removed":
        del level.entities[77]
    elif how == "shared":
        level.entities[500] = (30.0, 40.0, e)
        level.add_entity(x, y, e, 499)
    elif how == "other level":
        level = Level()
        level.add_entity(10.0, 20.5, make("z_mine", "o", {"v": VariableInt(s("o", 32))}), 101)
        level.add_entity(12.0, 20.5, make(name, "p"), 77)
    elif how == "reader":
        level = load(first)
        x, y, e = level.entities[101]
        e.rotation = u("r", 16)
        e.variables["v"] = VariableUInt(u("nv", 32))
        level.entities[77] = (x, y, level.entities[77][2])
    ids = list(level.entities)
    check(level, ids, [clone(level.entities[i]) for i in ids], "edited entity")
