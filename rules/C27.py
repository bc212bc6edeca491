"""C27: JSON export and import of variables are inverse."""

import json

from dustmaker.cmd.variables import json_to_variables, variables_to_json
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)

RULE = (
    "All variable trees of the enumerated shapes (every scalar type; empty, one- and two-member structs and arrays of them; "
    "containers in containers up to three levels; structs with differing members inside arrays) with abstract leaf values are "
    "traced through variables_to_json, the JSON text model and json_to_variables; type by type and value by value the result "
    "must be the original. Trees whose array members disagree in type must be refused."
)

LEAVES = {
    "bool": VariableBool,
    "int": VariableInt,
    "uint": VariableUInt,
    "float": VariableFloat,
    "string": VariableString,
    "vec2": VariableVec2,
}
KINDS = list(LEAVES)


def leaf_value(kind, n):
    if kind == "bool":
        return flag(n)
    if kind == "int":
        return s(n, 32)
    if kind == "uint":
        return u(n, 32)
    if kind == "float":
        return real(n, -1e9, 1e9)
    if kind == "string":
        return sbytes(n, 3)
    return (real(n + ".x", -1e9, 1e9), real(n + ".y", -1e9, 1e9))


# a shape is a leaf kind, ("s", {name: shape}) or ("a", member class name, [shapes])
def build(shape, n):
    if isinstance(shape, str):
        return LEAVES[shape](leaf_value(shape, n))
    if shape[0] == "s":
        return VariableStruct({k: build(sub, n + "." + k) for k, sub in shape[1].items()})
    return VariableArray(class_of(shape[1]), [build(sub, n + "." + str(i)) for i, sub in enumerate(shape[2])])


def class_of(name):
    if name == "s":
        return VariableStruct
    if name == "a":
        return VariableArray
    return LEAVES[name]


def kind_of(shape):
    return shape if isinstance(shape, str) else shape[0]


def unify(a, b):
    """common type of two array members, False if there is none; types: leaf, dict, or [class name, member type or None]"""
    if isinstance(a, str) or isinstance(b, str):
        return a if a == b else False
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if isinstance(a, dict):
        out = dict(a)
        for k, t in b.items():
            x = unify(out[k], t) if k in out else t
            if x is False:
                return False
            out[k] = x
        return out
    if a[0] != b[0]:
        return False
    if a[1] is None or b[1] is None:
        return [a[0], a[1] if b[1] is None else b[1]]
    x = unify(a[1], b[1])
    return False if x is False else [a[0], x]


def type_tree(shape):
    if isinstance(shape, str):
        return shape
    if shape[0] == "s":
        out = {}
        for k, sub in shape[1].items():
            t = type_tree(sub)
            if t is False:
                return False
            out[k] = t
        return out
    member = None
    for sub in shape[2]:
        t = type_tree(sub)
        if t is False:
            return False
        member = t if member is None else unify(member, t)
        if member is False:
            return False
    return [shape[1], member]


def same(a, b, where):
    require(type(a) is type(b), where + ": variable type", type(a).__name__, type(b).__name__)
    if isinstance(a, VariableStruct):
        require(type(b.value) is dict and set(a.value) == set(b.value), where + ": members", list(a.value), list(b.value))
        for k in a.value:
            same(a.value[k], b.value[k], where + "." + k)
    elif isinstance(a, VariableArray):
        require(a.value[0] is b.value[0], where + ": element type")
        require(len(a.value[1]) == len(b.value[1]), where + ": length", len(a.value[1]), len(b.value[1]))
        for i in range(len(a.value[1])):
            same(a.value[1][i], b.value[1][i], where + "[" + str(i) + "]")
    else:
        require(type(a.value) is type(b.value), where + ": type of the value")
        require(a.value == b.value, where + ": value", a.value, b.value)
        if isinstance(a, VariableVec2):
            require(type(b.value) is tuple and type(b.value[0]) is float and type(b.value[1]) is float, where + ": vector")


def exported(var):
    schema, data = variables_to_json(var)
    text = json.dumps({"vars": data, "schema": schema}, indent=4)
    back = json.loads(text)
    return back["schema"], back["vars"]


def rule(shape):
    var = build(shape, "v")
    untouched = build(shape, "v")
    if type_tree(shape) is False:
        try:
            schema, data = variables_to_json(var)
        except (ValueError, TypeError, KeyError):
            return
        fail("a tree that cannot be represented is exported: " + str(shape))
        return
    schema, data = exported(var)
    same(untouched, var, "exporting leaves the variable alone")
    back = json_to_variables(schema, data)
    same(var, back, "round trip of " + str(shape))
    require(var == back, "the imported variable is equal", str(shape))
    back.assert_types()


def level1():
    out = list(KINDS)
    for k in KINDS:
        out.append(("s", {"x": k}))
        out.append(("a", k, []))
        out.append(("a", k, [k]))
        out.append(("a", k, [k, k]))
    out.append(("s", {}))
    out.append(("s", {"x": "int", "y": "uint"}))
    out.append(("a", "s", []))
    out.append(("a", "a", []))
    return out


def level2():
    base = level1()
    out = []
    for a in base:
        out.append(("s", {"x": a}))
        out.append(("s", {"k": "string", "x": a, "l": "vec2"}))
        out.append(("a", kind_of(a), [a]))
        out.append(("a", kind_of(a), [a, a]))
    return out


def pairs():
    """arrays with two different members of the same class"""
    base = [a for a in level1() if not isinstance(a, str)]
    out = []
    for a in base:
        for b in base:
            if kind_of(a) == kind_of(b):
                out.append(("a", kind_of(a), [a, b]))
    return out


def deep():
    out = []
    some = [
        ("a", "a", [("a", "int", [])]),
        ("a", "a", [("a", "a", [])]),
        ("a", "a", [("a", "a", [("a", "uint", ["uint"])])]),
        ("a", "a", [("a", "a", []), ("a", "a", [("a", "uint", ["uint"])])]),
        ("a", "a", [("a", "a", [("a", "uint", ["uint"])]), ("a", "a", [])]),
        ("a", "a", [("a", "a", [("a", "uint", [])]), ("a", "a", [("a", "int", [])])]),
        ("a", "a", [("a", "s", []), ("a", "s", [("s", {"x": "int"})])]),
        ("a", "a", [("a", "s", [("s", {"y": "int"})]), ("a", "s", [("s", {"x": "int"})])]),
        ("a", "a", [("a", "s", [("s", {"x": "uint"})]), ("a", "s", [("s", {"x": "int"})])]),
        ("a", "a", [("a", "s", []), ("a", "a", [])]),
        ("a", "a", [("a", "int", []), ("a", "s", [])]),
        ("a", "a", [("a", "int", []), ("a", "a", [])]),
        ("a", "s", [("s", {"x": ("a", "a", [])}), ("s", {"x": ("a", "a", [("a", "int", ["int"])])})]),
        ("a", "s", [("s", {"x": ("a", "a", [("a", "int", ["int"])])}), ("s", {"x": ("a", "a", [])})]),
        ("a", "s", [("s", {"x": ("a", "int", [])}), ("s", {"x": ("a", "uint", [])})]),
        ("a", "s", [("s", {"x": ("a", "int", ["int"])}), ("s", {"y": ("a", "uint", ["uint"])}), ("s", {})]),
        ("a", "s", [("s", {"x": ("s", {"a": "int"})}), ("s", {"x": ("s", {"b": "uint"})}), ("s", {"x": ("s", {"a": "int", "b": "uint"})})]),
        ("a", "s", [("s", {"x": ("s", {"a": "int"})}), ("s", {"x": ("s", {"a": "uint"})})]),
        ("a", "s", [("s", {"x": ("s", {})}), ("s", {"x": "int"})]),
        ("a", "s", [("s", {"x": ("s", {})}), ("s", {"x": ("a", "int", [])})]),
        ("a", "s", [("s", {"x": "int"}), ("s", {"x": "bool"})]),
        ("a", "s", [("s", {"x": "string"}), ("s", {"x": "vec2"})]),
        ("a", "s", [("s", {"x": "float"}), ("s", {"x": "int"})]),
        ("a", "s", [("s", {}), ("s", {"x": "float"}), ("s", {}), ("s", {"x": "float", "y": "bool"})]),
        ("a", "s", [("s", {}), ("s", {"x": "float"}), ("s", {}), ("s", {"x": "uint", "y": "bool"})]),
    ]
    for a in some:
        out.append(a)
        out.append(("s", {"d": a, "e": "int"}))
        out.append(("s", {"d": ("s", {"e": a})}))
        out.append(("a", "s", [("s", {"d": a}), ("s", {"d": a})]))
        out.append(("a", "s", [("s", {}), ("s", {"d": a})]))
        out.append(("a", "a", [a, a]))
        out.append(("a", "a", [a]))
    return out


GROUPS = {"flat": level1(), "nested": level2(), "pairs": pairs(), "deep": deep()}


@cases(group=list(GROUPS), part=list(range(16)))
def case_round_trip(group, part):
    for i, shape in enumerate(GROUPS[group]):
        if i % 16 == part:
            rule(shape)


def case_triples():
    base = [("a", "int", []), ("a", "int", ["int"]), ("a", "uint", []), ("a", "a", []), ("a", "s", []), ("a", "a", [("a", "int", [])])]
    if THOROUGH:
        base += [("a", "a", [("a", "uint", [])]), ("a", "s", [("s", {"x": "int"})]), ("a", "s", [("s", {"x": "uint"})])]
    for a in base:
        for b in base:
            for c in base:
                rule(("a", "a", [a, b, c]))


@cases(kind=KINDS)
def case_array_with_other_members(kind):
    """an array corrupted to hold members of another type is not exported as if it were fine"""
    for other in KINDS:
        if other == kind:
            continue
        arr = VariableArray(LEAVES[kind], [LEAVES[kind](leaf_value(kind, "a"))])
        arr.value[1].append(LEAVES[other](leaf_value(other, "b")))
        try:
            variables_to_json(arr)
        except ValueError:
            continue
        fail("an array with members of another type is exported: " + kind + " " + other)


@cases(b=list(range(256)))
def case_string_bytes(b):
    for value in (bytes([b]), bytes([b, b]), b"a" + bytes([b]) + b"z", bytes([b, 255 - b])):
        var = VariableStruct({"t": VariableString(value)})
        schema, data = exported(var)
        require(type(data["t"]) is str, "strings become text")
        same(var, json_to_variables(schema, data), "string")


def case_special_values():
    for v in (VariableInt(-(2**31)), VariableInt(2**31 - 1), VariableUInt(2**32 - 1), VariableFloat(0.1), VariableFloat(-0.0), VariableFloat(1e300), VariableFloat(5.0), VariableFloat(float("inf")), VariableFloat(-float("inf")), VariableVec2((0.1, -2.0)), VariableString(b""), VariableString(bytes(range(256)))):
        schema, data = exported(VariableStruct({"k": v}))
        same(v, json_to_variables(schema, data).value["k"], "special value")
    for key in ("", "a b", "\u00e9", "\u0142\u4e2d", "\"quoted\"", "new\nline", "vars", "schema"):
        var = VariableStruct({key: VariableInt(s("x", 32))})
        schema, data = exported(var)
        same(var, json_to_variables(schema, data), "member name")


def case_member_order():
    var = VariableStruct({"b": VariableInt(1), "a": VariableUInt(2), "c": VariableArray(VariableInt, [VariableInt(s("p", 32)), VariableInt(s("q", 32))])})
    schema, data = exported(var)
    back = json_to_variables(schema, data)
    require([x.value for x in back.value["c"].value[1]] == [s("p", 32), s("q", 32)], "order of array members")


@cases(kind=KINDS, n=[20, 257, 300])
def case_long_array(kind, n):
    """long arrays and structs with many members"""
    arr = VariableArray(LEAVES[kind], [LEAVES[kind](leaf_value(kind, "v" + str(i % 9))) for i in range(n)])
    var = VariableStruct({"a": arr, "b": VariableArray(VariableArray, [arr, VariableArray(LEAVES[kind], [])])})
    schema, data = exported(var)
    same(var, json_to_variables(schema, data), "long array")


@cases(n=[30, 257, 300])
def case_many_members(n):
    var = VariableStruct({"m" + str(i * 7 % n): LEAVES[KINDS[i % len(KINDS)]](leaf_value(KINDS[i % len(KINDS)], "v" + str(i % 9))) for i in range(n)})
    schema, data = exported(var)
    same(var, json_to_variables(schema, data), "struct")
    var = VariableArray(VariableStruct, [var, VariableStruct({})])
    schema, data = exported(var)
    same(var, json_to_variables(schema, data), "array of structs")


@cases(kind=["struct", "array", "mixed"], depth=[5, 12, 40])
def case_deep_nesting(kind, depth):
    var = VariableInt(s("v", 32))
    for i in range(depth):
        if kind == "struct" or (kind == "mixed" and i % 2):
            var = VariableStruct({"k": var})
        else:
            var = VariableArray(type(var), [var])
    var = VariableStruct({"top": var})
    schema, data = exported(var)
    same(var, json_to_variables(schema, data), "deep tree")
