"""C25: variables and bound properties never hold ill-typed values."""

from dustmaker import entity as entity_module
from dustmaker.level import Level, LevelType
from dustmaker.variable import (
    Variable,
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)

RULE = (
    "Every variable class is built, directly, inside structs and arrays (nested up to two levels) and through the array "
    "interface, from abstract in-range values (must succeed and keep the value), from abstract out-of-range integers and from "
    "values of every other type (must raise and leave the container as it was); each is then corrupted and re-validated. Every "
    "property of the documented table (class, attribute, variable name, variable type, default) is read unset, set, replaced by "
    "each wrong variable type, assigned, assigned an ill-typed value and deleted."
)

CLASSES = {
    "bool": VariableBool,
    "int": VariableInt,
    "uint": VariableUInt,
    "float": VariableFloat,
    "string": VariableString,
    "vec2": VariableVec2,
}


def good(kind, n):
    if kind == "bool":
        return flag(n)
    if kind == "int":
        return s(n, 32)
    if kind == "uint":
        return u(n, 32)
    if kind == "float":
        return real(n, -1e9, 1e9)
    if kind == "string":
        return sbytes(n, 3)
    if kind == "vec2":
        return (real(n + ".x", -1e9, 1e9), real(n + ".y", -1e9, 1e9))
    if kind == "struct":
        return {"a": VariableInt(s(n, 32))}
    return (VariableUInt, [VariableUInt(u(n, 32))])


# kind -> name -> value that does not belong there
def bad_values(kind, n):
    out = {
        "none": None,
        "text": "12",
        "list": [1, 2],
        "set": {1},
        "class": VariableInt,
        "variable": VariableBool(True),
        "object": object(),
    }
    if kind != "struct":
        out["dict"] = {"a": VariableInt(1)}
    if kind != "bool" and kind != "int" and kind != "uint":
        out["flag"] = flag(n + ".f")
    if kind != "int" and kind != "uint":
        out["whole"] = u(n + ".w", 8)
        out["zero"] = 0
        out["one"] = 1
    if kind != "float":
        out["real"] = real(n + ".r", -1e9, 1e9)
        out["float"] = 1.0
    if kind != "string":
        out["bytes"] = sbytes(n + ".b", 2)
        out["empty bytes"] = b""
    if kind != "vec2":
        out["pair"] = (1.0, 2.0)
    if kind == "int":
        out["above"] = u(n + ".hi", 40, lo=2**31)
        out["just above"] = 2**31
        out["below"] = s(n + ".lo", 40, hi=-(2**31) - 1)
        out["just below"] = -(2**31) - 1
    if kind == "uint":
        out["above"] = u(n + ".hi", 40, lo=2**32)
        out["just above"] = 2**32
        out["below"] = s(n + ".lo", 40, hi=-1)
        out["just below"] = -1
    if kind == "string":
        out["bytearray"] = bytearray(b"ab")
    if kind == "vec2":
        out["()"] = ()
        out["one"] = (1.0,)
        out["three"] = (1.0, 2.0, 3.0)
        out["ints"] = (1, 2)
        out["first int"] = (1, 2.0)
        out["second int"] = (1.0, 2)
        out["list of floats"] = [1.0, 2.0]
        out["bytes inside"] = (1.0, b"a")
    return out


SCALARS = ["bool", "int", "uint", "float", "string", "vec2"]


def refused(f, what):
    try:
        f()
    except (AssertionError, ValueError, TypeError):
        return
    fail(what)


def refused_value_error(f, what):
    try:
        f()
    except ValueError:
        return
    fail(what)


@cases(kind=SCALARS)
def case_valid_values(kind):
    cls = CLASSES[kind]
    v = good(kind, "v")
    var = cls(v)
    require(var.value == v, "a variable keeps the value it was given", kind)
    require(type(var.value) is type(v), "a variable keeps its value's type", kind)
    var.assert_types()
    arr = VariableArray(cls, [var])
    arr.append(v)
    arr.insert(0, v)
    arr[1] = v
    require(len(arr) == 3, "array length after insertion")
    for i in range(3):
        require(arr[i] == v, "array members are unboxed", i)
        require(type(arr.value[1][i]) is cls, "array members are boxed in the element type", i)
    arr.assert_types()
    st = VariableStruct({"k": var, "l": arr})
    require(st.value["k"] is var and st.value["l"] is arr, "struct members")
    st.assert_types()


@cases(kind=SCALARS)
def case_default_values(kind):
    cls = CLASSES[kind]
    want = {"bool": False, "int": 0, "uint": 0, "float": 0.0, "string": b"", "vec2": (0.0, 0.0)}
    require(cls().value == want[kind], "value of a variable built without one", kind)
    require(VariableStruct().value == {}, "a struct built without members is empty")
    a = VariableArray(cls)
    require(a.element_type is cls and len(a) == 0, "an array built without members is empty")
    a.append(want[kind])
    require(len(VariableArray(cls)) == 0, "new arrays share nothing")
    x = VariableStruct()
    x.value["k"] = VariableBool(True)
    require(VariableStruct().value == {}, "new structs share nothing")


@cases(kind=SCALARS, where=["direct", "corrupted"])
def case_invalid_values(kind, where):
    cls = CLASSES[kind]
    for name, v in bad_values(kind, "v").items():
        if where == "direct":
            refused(lambda: cls(v), "a " + kind + " variable accepted an invalid value: " + name)
            continue
        var = cls(good(kind, "g"))
        var.value = v
        refused_value_error(var.assert_types, "a corrupted " + kind + " passes validation: " + name)
        nest = VariableStruct()
        nest.value["x"] = var
        refused_value_error(nest.assert_types, "corruption inside a struct passes validation: " + kind + " " + name)
        arr = VariableArray(cls)
        arr.value[1].append(var)
        refused_value_error(arr.assert_types, "corruption inside an array passes validation: " + kind + " " + name)
        deep = VariableStruct()
        deep.value["y"] = VariableArray(VariableStruct)
        deep.value["y"].value[1].append(nest)
        refused_value_error(deep.assert_types, "corruption inside nested containers passes validation: " + kind + " " + name)
        refused(lambda: VariableStruct({"ok": VariableInt(1), "x": var}), "a struct accepted a corrupted member: " + kind + " " + name)
        refused(lambda: VariableArray(cls, [cls(), var]), "an array accepted a corrupted member: " + kind + " " + name)


@cases(n=[1, 2, 17, 255, 256, 1025, 2100], at=["first", "middle", "last"], box=["array", "struct"])
def case_wide(n, at, box):
    """one ill-typed member among many, or a deep one, is found wherever it lies"""
    k = {"first": 0, "middle": n // 2, "last": n - 1}[at]
    bad = VariableInt(1)
    bad.value = b"x"
    members = [VariableInt(i) for i in range(n)]
    members[k] = bad
    if box == "array":
        refused(lambda: VariableArray(VariableInt, members), "an array accepted a corrupted member")
        members[k] = VariableBool(True)
        refused(lambda: VariableArray(VariableInt, members), "an array accepted a member of another type")
        members[k] = VariableInt(5)
        VariableArray(VariableInt, members).assert_types()
    else:
        refused(lambda: VariableStruct({"m" + str(i): m for i, m in enumerate(members)}), "a struct accepted a corrupted member")
    if n > 40:
        return
    # nested that deep
    deep = bad
    for i in range(n):
        if box == "struct" or i % 2:
            outer = VariableStruct()
            outer.value["x"] = deep
        else:
            outer = VariableArray(type(deep))
            outer.value[1].append(deep)
        deep = outer
    refused_value_error(deep.assert_types, "deep corruption passes validation")


@cases(kind=SCALARS, op=["append", "insert", "set", "extend", "+="])
def case_invalid_array_assignment(kind, op):
    cls = CLASSES[kind]
    g = good(kind, "g")
    for name, v in bad_values(kind, "v").items():
        arr = VariableArray(cls, [cls(g), cls(g)])
        what = "an array of " + kind + " accepted (" + op + ") an invalid value: " + name
        if op == "append":
            refused(lambda: arr.append(v), what)
        elif op == "insert":
            refused(lambda: arr.insert(1, v), what)
        elif op == "set":
            refused(lambda: set_member(arr, v), what)
        elif op == "extend":
            refused(lambda: arr.extend([v]), what)
        else:
            refused(lambda: add_member(arr, v), what)
        require(len(arr) == 2 and arr[0] == g and arr[1] == g, "a refused member leaves the array as it was", kind, name)
        arr.assert_types()


def set_member(arr, v):
    arr[1] = v


def add_member(arr, v):
    arr += [v]


@cases(kind=SCALARS, other=SCALARS + ["struct", "array"])
def case_array_of_wrong_variables(kind, other):
    cls = CLASSES[kind]
    if other == kind:
        return
    if other == "struct":
        v = VariableStruct()
    elif other == "array":
        v = VariableArray(cls)
    else:
        v = CLASSES[other](good(other, "g"))
    refused(lambda: VariableArray(cls, [v]), "an array accepted members of another type: " + kind + " " + other)
    refused(lambda: VariableArray(cls, [cls(), v]), "an array accepted members of another type: " + kind + " " + other)
    arr = VariableArray(cls, [cls()])
    arr.value[1].append(v)
    refused_value_error(arr.assert_types, "an array with members of another type passes validation")


def case_array_shape():
    for et in (None, int, bytes, "int", 3, VariableInt(1)):
        refused(lambda: VariableArray(et), "an array accepted an element type that is no variable type")
        a = VariableArray(VariableInt)
        a.value = (et, [])
        refused_value_error(a.assert_types, "an element type that is no variable type passes validation")
    for value in (None, [], (VariableInt,), (VariableInt, ()), (VariableInt, [], []), [VariableInt, []], (VariableInt, None), (VariableInt, [1]), (VariableInt, [None])):
        a = VariableArray(VariableInt)
        a.value = value
        refused_value_error(a.assert_types, "a malformed array passes validation")
    for members in ([1], [None], ["a"], [VariableInt], [VariableInt(1), 2]):
        refused(lambda: VariableArray(VariableInt, members), "an array accepted members that are no variables")


def case_struct_shape():
    for key in (1, None, b"k", ("k",)):
        refused(lambda: VariableStruct({key: VariableInt(1)}), "a struct accepted a key that is no string")
        x = VariableStruct()
        x.value[key] = VariableInt(1)
        refused_value_error(x.assert_types, "a struct key that is no string passes validation")
    for member in (1, None, "a", b"a", VariableInt, {"a": VariableInt(1)}, [VariableInt(1)], (1.0, 1.0)):
        refused(lambda: VariableStruct({"k": member}), "a struct accepted a member that is no variable")
        refused(lambda: VariableStruct({"j": VariableInt(1), "k": member}), "a struct accepted a member that is no variable")
        x = VariableStruct({"k": VariableInt(1)})
        x.value["k"] = member
        refused_value_error(x.assert_types, "a struct member that is no variable passes validation")
    for value in (None, 1, [], (), "a", b"", VariableStruct()):
        x = VariableStruct()
        x.value = value
        refused_value_error(x.assert_types, "a struct whose value is no mapping passes validation")


@cases(kind=SCALARS, depth=[1, 2, 3], via=["struct", "array", "mixed"])
def case_nested(kind, depth, via):
    """a good tree is valid, one corrupted leaf anywhere is reported"""
    cls = CLASSES[kind]
    leaf = cls(good(kind, "g"))
    tree = leaf
    for d in range(depth):
        if via == "struct" or (via == "mixed" and d % 2 == 0):
            tree = VariableStruct({"a": VariableInt(s("o", 32)), "t": tree})
        else:
            tree = VariableArray(type(tree), [tree])
    tree.assert_types()
    for name, v in bad_values(kind, "v").items():
        leaf.value = v
        refused_value_error(tree.assert_types, "a corrupted leaf passes validation: " + name)


def case_array_of_containers():
    inner = VariableArray(VariableUInt, [VariableUInt(u("a", 32))])
    arr = VariableArray(VariableArray, [inner])
    arr.append(inner.value)
    arr[0] = (VariableInt, [VariableInt(s("b", 32))])
    require(arr[1] == inner.value, "nested arrays keep their members")
    require(type(arr.value[1][0]) is VariableArray, "nested arrays are boxed")
    arr.assert_types()
    refused(lambda: arr.append((VariableInt, [VariableUInt(1)])), "a nested array of the wrong members was accepted")
    refused(lambda: arr.append(5), "a number was accepted in an array of arrays")
    refused(lambda: arr.append(None), "nothing was accepted in an array of arrays")
    require(len(arr) == 2, "a refused member leaves the array as it was")
    structs = VariableArray(VariableStruct, [VariableStruct({"k": VariableInt(s("c", 32))})])
    structs.append({"l": VariableBool(flag("f"))})
    require(len(structs) == 2 and structs[1]["l"].value == flag("f"), "structs in arrays")
    structs.assert_types()
    refused(lambda: structs.append({"l": 5}), "a struct with a member that is no variable was accepted")
    refused(lambda: structs.append(5), "a number was accepted in an array of structs")
    require(len(structs) == 2, "a refused member leaves the array as it was")


def case_array_interface():
    """the list interface: reading, deleting, order"""
    v = [u("a", 32), u("b", 32), u("c", 32)]
    arr = VariableArray(VariableUInt)
    for x in v:
        arr.append(x)
    require(list(arr) == v, "order of members")
    require(arr[-1] == v[2] and arr[-3] == v[0], "indices count from the end too")
    del arr[0]
    require(list(arr) == [v[1], v[2]], "deleting a member")
    arr.insert(1, v[0])
    require(list(arr) == [v[1], v[0], v[2]], "inserting a member")
    require(arr.pop() == v[2] and list(arr) == [v[1], v[0]], "taking the last member")
    arr.extend([v[2]])
    require(list(arr) == [v[1], v[0], v[2]], "extending")
    arr.reverse()
    require(list(arr) == [v[2], v[0], v[1]], "reversing")
    src = [VariableUInt(u("d", 32))]
    one = VariableArray(VariableUInt, src)
    one.append(1)
    require(len(src) == 1, "building an array does not take over the caller's list")
    d = {"k": VariableUInt(1)}
    st = VariableStruct(d)
    st.value["l"] = VariableUInt(2)
    require(len(d) == 1, "building a struct does not take over the caller's mapping")
    for i in (3, -4):
        try:
            arr[i]
            fail("reading beyond the end")
        except IndexError:
            pass


# ---------------------------------------------------------------- properties
# class -> (attribute, variable, kind, default); arrays: (attribute, variable, kind) of the members
PROPS = {
    "Emitter": [
        ("e_rotation", "e_rotation", "int", 0),
        ("draw_depth_sub", "draw_depth_sub", "uint", 0),
        ("r_rotation", "r_rotation", "bool", False),
        ("r_area", "r_area", "bool", False),
        ("width", "width", "int", 480),
        ("height", "height", "int", 480),
        ("emitter_id", "emitter_id", "uint", 0),
    ],
    "EndZone": [("finished", "finished", "bool", False)],
    "Trigger": [("width", "width", "int", 500)],
    "FogTrigger": [
        ("width", "width", "int", 500),
        ("speed", "fog_speed", "float", 5.0),
        ("gradient_middle", "gradient_middle", "float", 0.0),
        ("star_bottom", "star_bottom", "float", 0.0),
        ("star_middle", "star_middle", "float", 0.4),
        ("star_top", "star_top", "float", 1.0),
        ("has_sub_layers", "has_sub_layers", "bool", False),
    ],
    "AmbienceTrigger": [("width", "width", "int", 500), ("speed", "ambience_speed", "float", 5.0)],
    "MusicTrigger": [("width", "width", "int", 500), ("speed", "music_speed", "float", 5.0)],
    "SpecialTrigger": [("width", "width", "int", 500)],
    "TextTrigger": [("hide", "hide", "bool", False), ("text", "text_string", "string", b"")],
    "DeathZone": [("width", "width", "int", 0), ("height", "height", "int", 0)],
    "AIController": [("puppet", "puppet_id", "uint", 0)],
    "CameraNode": [("node_type", "node_type", "int", 1), ("zoom", "zoom_h", "int", 1080), ("width", "width", "int", 520)],
    "LevelEnd": [("finished", "finished", "bool", False)],
    "ScoreBook": [("book_type", "book_type", "string", b"")],
    "LevelDoor": [("width", "width", "int", 500), ("file_name", "file_name", "string", b""), ("door_set", "door_set", "int", 0)],
    "RedKeyDoor": [("keys_needed", "key_needed", "int", 1)],
    "EnemyTrashTire": [("scale", "dm_scale", "float", 1.0), ("max_fall_speed", "max_fall_speed", "float", 800.0)],
    "EnemyKey": [
        ("scale", "dm_scale", "float", 1.0),
        ("door", "door", "uint", 0),
        ("lastX", "lastKnowX", "float", 0.0),
        ("lastY", "lastKnowY", "float", 0.0),
    ],
    "EnemyBear": [("scale", "dm_scale", "float", 1.0)],
    "Apple": [("scale", "dm_scale", "float", 1.0)],
    "Dustman": [("scale", "dm_scale", "float", 1.0)],
    "CustomScoreBook": [("level_list", "level_list_id", "int", 0)],
    "StringList": [("width", "width", "int", 500)],
}

ARRAYS = {
    "CheckPoint": [("trigger_areas", "trigger_area", "vec2")],
    "EndZone": [("trigger_areas", "trigger_area", "vec2")],
    "FogTrigger": [("gradient", "gradient", "uint"), ("colours", "fog_colour", "uint"), ("pers", "fog_per", "float")],
    "AmbienceTrigger": [("sound_names", "sound_ambience_names", "string"), ("sound_vols", "sound_ambience_vol", "float")],
    "MusicTrigger": [("sound_names", "sound_music_names", "string"), ("sound_vols", "sound_music_vol", "float")],
    "AIController": [("nodes", "nodes", "vec2"), ("node_wait_times", "nodes_wait_time", "int")],
    "CameraNode": [("test_widths", "test_widths", "int"), ("nodes", "c_node_ids", "uint"), ("control_widths", "control_widths", "vec2")],
    "LevelEnd": [("entities", "ent_list", "uint")],
    "StringList": [("data", "list", "string")],
}


def wrong_variables(kind):
    out = []
    for k in SCALARS:
        if k != kind:
            out.append(CLASSES[k](good(k, "w." + k)))
    if kind != "struct":
        out.append(VariableStruct())
    if kind != "array":
        out.append(VariableArray(CLASSES[kind]))
    return out


def property_rule(make, attr, name, kind, default):
    cls = CLASSES[kind]
    v, w = good(kind, "v"), good(kind, "w")
    # unset
    x = make()
    x.variables.pop(name, None)
    before = dict(x.variables)
    got = getattr(x, attr)
    require(got == default, attr + ": default", got, default)
    require(x.variables == before, attr + ": reading an unset property stores nothing")
    setattr(x, attr, got)
    require(getattr(x, attr) == default, attr + ": the default can be assigned back")
    x.variables[name].assert_types()
    # set
    x = make()
    others = {k: q for k, q in x.variables.items() if k != name}
    x.variables[name] = cls(v)
    require(getattr(x, attr) == v, attr + ": reads its variable", getattr(x, attr), v)
    setattr(x, attr, w)
    require(getattr(x, attr) == w, attr + ": reads what was assigned", getattr(x, attr), w)
    require(name in x.variables and type(x.variables[name]) is cls, attr + ": stored under its variable name and type", name)
    require(x.variables[name].value == w, attr + ": stored value")
    others[name] = x.variables[name]
    require(x.variables == others, attr + ": nothing else is stored")
    # ill-typed assignment
    for bad, value in bad_values(kind, "bad").items():
        refused(lambda: setattr(x, attr, value), attr + ": accepted an invalid value: " + bad)
        require(getattr(x, attr) == w, attr + ": a refused value changes nothing", bad)
    delattr(x, attr)
    require(name not in x.variables, attr + ": deleting forgets the variable")
    require(getattr(x, attr) == default, attr + ": default after deleting")
    delattr(x, attr)
    # variable of another type
    for var in wrong_variables(kind):
        x.variables[name] = var
        refused_value_error(lambda: getattr(x, attr), attr + ": accepted a variable of another type: " + type(var).__name__)
        require(x.variables[name] is var, attr + ": reading changes nothing")


@cases(cls=list(PROPS))
def case_entity_properties(cls):
    for attr, name, kind, default in PROPS[cls]:
        property_rule(lambda: getattr(entity_module, cls)(), attr, name, kind, default)


@cases(cls=list(ARRAYS))
def case_entity_array_properties(cls):
    for attr, name, kind in ARRAYS[cls]:
        elem = CLASSES[kind]
        v = good(kind, "v")
        x = getattr(entity_module, cls)()
        got = getattr(x, attr)
        require(type(got) is VariableArray and got.element_type is elem and len(got) == 0, attr + ": default is an empty array of its type")
        got.append(v)
        require(len(getattr(x, attr)) == 1 and getattr(x, attr)[0] == v, attr + ": members appended to the property are kept")
        require(type(x.variables[name]) is VariableArray and x.variables[name].value[1][0].value == v, attr + ": stored under its variable name")
        y = getattr(entity_module, cls)()
        require(len(getattr(y, attr)) == 0, attr + ": entities share nothing")
        arr = VariableArray(elem, [elem(v), elem(v)])
        setattr(x, attr, arr)
        require(x.variables[name] == arr and len(getattr(x, attr)) == 2, attr + ": reads what was assigned")
        delattr(x, attr)
        require(name not in x.variables and len(getattr(x, attr)) == 0, attr + ": deleting forgets the variable")
        x.variables[name] = arr
        require(len(getattr(x, attr)) == 2 and getattr(x, attr)[1] == v, attr + ": reads its variable")
        for var in [CLASSES[k](good(k, "w." + k)) for k in SCALARS] + [VariableStruct()]:
            x.variables[name] = var
            refused_value_error(lambda: getattr(x, attr), attr + ": accepted a variable of another type: " + type(var).__name__)


LEVEL = [
    ("name", "level_name", "string", b""),
    ("virtual_character", "vector_character", "bool", False),
    ("level_type", "level_type", "int", 0),
    ("dustmod_version", "dustmod_version", "string", b""),
]


@cases(row=LEVEL)
def case_level_properties(row):
    property_rule(Level, row[0], row[1], row[2], row[3])


def case_level_version():
    require(Level().dustmod_version == b"dustmaker", "version of new levels")
    require(Level().level_type == LevelType.NORMAL, "type of new levels")


class Start:
    """a start position seen as an object with variables"""


@cases(player=[1, 2, 3, 4], axis=["x", "y"])
def case_start_positions(player, axis):
    def make():
        return Level().start_position(player)

    property_rule(make, axis, "p" + str(player) + "_" + axis, "int", 0)
    level = Level()
    v = s("v", 32)
    setattr(level.start_position(player), axis, v)
    for p in range(1, 5):
        for a in ("x", "y"):
            got = getattr(level.start_position(p), a)
            require(got == (v if (p, a) == (player, axis) else 0), "start positions are independent", p, a)
    require(level.variables["p" + str(player) + "_" + axis].value == v, "start positions are level variables")
    require(getattr(level.start_position(), axis) == getattr(level.start_position(1), axis), "the first player is the default")


@cases(row=LEVEL + [("x", "p1_x", "int", 0), ("y", "p3_y", "int", 0)], how=["other dict", "same dict cleared", "replaced variable"])
def case_level_variables_replaced(row, how):
    """properties follow the variables the level has now"""
    level = Level()
    kind = {"int": VariableInt, "string": VariableString, "bool": VariableBool}[row[2]]
    vals = {"int": [3, 5], "string": [b"a", b"b"], "bool": [True, False]}[row[2]]

    def seat():
        return level.start_position(int(row[1][1])) if row[0] in ("x", "y") else level

    setattr(seat(), row[0], vals[0])
    require(getattr(seat(), row[0]) == vals[0], "before")
    if how == "other dict":
        level.variables = {row[1]: kind(vals[1])}
        require(getattr(seat(), row[0]) == vals[1], "value of the new variables", getattr(seat(), row[0]))
        old = level.variables
        level.variables = {}
        require(getattr(seat(), row[0]) == row[3], "default without the variable", getattr(seat(), row[0]))
        setattr(seat(), row[0], vals[0])
        require(level.variables[row[1]].value == vals[0] and old[row[1]].value == vals[1], "stored in the new variables")
    elif how == "same dict cleared":
        level.variables.clear()
        require(getattr(seat(), row[0]) == row[3], "default without the variable", getattr(seat(), row[0]))
    else:
        level.variables[row[1]] = kind(vals[1])
        require(getattr(seat(), row[0]) == vals[1], "value of the new variable", getattr(seat(), row[0]))


@cases(seed=range(400 if THOROUGH else 80), kind=["uint", "string"])
def case_array_program(seed, kind):
    """sequences of list operations against a plain list"""
    x = [seed * 7919 + 17]

    def draw(n):
        x[0] = (x[0] * 1103515245 + 12345) % 2147483648
        return (x[0] >> 12) % n

    def new(k):
        return u("v" + str(k), 32) if kind == "uint" else sbytes("v" + str(k), 2)

    cls = VariableUInt if kind == "uint" else VariableString
    bad = "text" if kind == "uint" else 5
    want = [new(100 + i) for i in range(draw(4))]
    arr = VariableArray(cls, [cls(v) for v in want])
    for k in range(10):
        op = draw(9)
        if op == 0:
            arr.append(new(k))
            want.append(new(k))
        elif op == 1:
            i = draw(9) - 4
            arr.insert(i, new(k))
            want.insert(i, new(k))
        elif op == 2 and want:
            i = draw(len(want) * 2) - len(want)
            arr[i] = new(k)
            want[i] = new(k)
        elif op == 3 and want:
            i = draw(len(want) * 2) - len(want)
            del arr[i]
            del want[i]
        elif op == 4 and want:
            i = draw(len(want) * 2) - len(want)
            require(arr.pop(i) == want.pop(i), "member taken out")
        elif op == 5:
            arr.extend([new(k), new(k + 50)])
            want.extend([new(k), new(k + 50)])
        elif op == 6:
            arr.reverse()
            want.reverse()
        elif op == 7:
            arr += [new(k)]
            want += [new(k)]
        else:
            i = draw(5) - 2
            try:
                arr.insert(i, bad)
            except Exception:
                pass
            else:
                fail("a member of another type was inserted")
        require(len(arr) == len(want), "length", k)
        require(list(arr) == want, "members", k)
        for i in range(-len(want), len(want)):
            require(arr[i] == want[i], "member by index", i)
        for v in arr.value[1]:
            require(type(v) is cls, "members are variables of the member type")
    arr.assert_types()
