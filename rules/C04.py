"""C04: every variable tree survives binary serialisation."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import (
    Variable,
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableType,
    VariableUInt,
    VariableVec2,
)

RULE = (
    "For every member kind, every pairing of kinds in structs, arrays of every kind and two further levels of nesting, "
    "at every bit alignment, the abstract value (all booleans, all 32-bit integers, all representable fixed-point "
    "numbers, all byte contents) is traced through write_variable and read_variable; the result must be the same tree "
    "(types, names, order, values) and reader and writer must stop at the same bit."
)

CLS = {
    "bool": VariableBool,
    "int": VariableInt,
    "uint": VariableUInt,
    "float": VariableFloat,
    "string": VariableString,
    "vec2": VariableVec2,
    "struct": VariableStruct,
    "array": VariableArray,
}
VT = {
    "bool": VariableType.BOOL,
    "int": VariableType.INT,
    "uint": VariableType.UINT,
    "float": VariableType.FLOAT,
    "string": VariableType.STRING,
    "vec2": VariableType.VEC2,
    "struct": VariableType.STRUCT,
    "array": VariableType.ARRAY,
}
SCALAR = ["bool", "int", "uint", "float", "string0", "string3", "vec2"]


def make(kind, n):
    """an abstract variable of the given kind; n makes its inputs distinct"""
    if kind == "bool":
        return VariableBool(flag(n))
    if kind == "int":
        return VariableInt(s(n, 32))
    if kind == "uint":
        return VariableUInt(u(n, 32))
    if kind == "float":
        return VariableFloat(dyadic(n, 24, 9, True))
    if kind == "float_frac":
        return VariableFloat(dyadic(n, 36, 31, True))
    if kind == "float_wide":
        # as many bits as a double holds
        return VariableFloat(dyadic(n, 54, 31, True))
    if kind == "float_int":
        return VariableFloat(dyadic(n, 31, 0, True))
    if kind == "float_pos":
        return VariableFloat(dyadic(n, 31, 0, False))
    if kind == "string0":
        return VariableString(b"")
    if kind == "string3":
        return VariableString(sbytes(n, 3))
    if kind == "vec2":
        return VariableVec2((dyadic(n + "x", 16, 4, True), dyadic(n + "y", 16, 8, True)))
    if kind == "struct0":
        return VariableStruct({})
    if kind == "struct1":
        return VariableStruct({"k": VariableUInt(u(n, 32))})
    if kind == "struct2":
        return VariableStruct({"z_9": VariableInt(s(n, 32)), "A{": VariableString(sbytes(n + "s", 2)), "m": VariableBool(flag(n + "f"))})
    if kind == "array0":
        return VariableArray(VariableInt, [])
    if kind == "array_string0":
        return VariableArray(VariableString, [])
    if kind == "array_struct0":
        return VariableArray(VariableStruct, [])
    if kind == "array_array0":
        return VariableArray(VariableArray, [])
    if kind == "array_uint":
        return VariableArray(VariableUInt, [VariableUInt(u(n + "0", 32)), VariableUInt(u(n + "1", 32))])
    if kind == "array_string":
        return VariableArray(VariableString, [VariableString(sbytes(n, 2)), VariableString(b""), VariableString(sbytes(n + "b", 1))])
    if kind == "array_struct":
        return VariableArray(VariableStruct, [make("struct1", n + "0"), make("struct0", n), make("struct2", n + "1")])
    if kind == "array_array":
        return VariableArray(VariableArray, [make("array_uint", n + "0"), make("array_string", n + "1"), make("array0", n)])
    if kind == "struct_deep":
        return VariableStruct({"a": make("array_struct", n + "a"), "b": make("struct2", n + "b"), "c": make("array_array", n + "c")})
    raise KeyError(kind)


ALL = SCALAR + [
    "float_frac", "float_wide", "float_int", "float_pos", "struct0", "struct1", "struct2", "array0", "array_string0", "array_struct0",
    "array_array0", "array_uint", "array_string", "array_struct", "array_array", "struct_deep",
]


def same_var(a, b, where):
    """a and b are variables of exactly the same class with the same content"""
    require(type(b) is type(a), where + ": variable type")
    if isinstance(a, VariableStruct):
        require(list(b.value.keys()) == list(a.value.keys()), where + ": member names and order")
        for k in a.value:
            same_var(a.value[k], b.value[k], where + "." + k)
    elif isinstance(a, VariableArray):
        require(b.value[0] is a.value[0], where + ": element type")
        require(len(b.value[1]) == len(a.value[1]), where + ": array length")
        for i, (x, y) in enumerate(zip(a.value[1], b.value[1])):
            same_var(x, y, where + "[" + str(i) + "]")
    elif isinstance(a, VariableVec2):
        require(isinstance(b.value, tuple) and len(b.value) == 2, where + ": pair")
        require(a.value[0] == b.value[0], where + ".x", a.value[0], b.value[0])
        require(a.value[1] == b.value[1], where + ".y", a.value[1], b.value[1])
    elif isinstance(a, VariableBool):
        require(b.value is True or b.value is False, where + ": boolean")
        require(a.value == b.value, where + ": value", a.value, b.value)
    else:
        require(a.value == b.value, where + ": value", a.value, b.value)


def round_trip(var, vt, off):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write(off, 0)
    w.write_variable(var)
    end = w.bit_tell()
    w.write(9, 0x155)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    r.read(off)
    back = r.read_variable(vt)
    require(r.bit_tell() == end, "reader stops where the writer stopped", r.bit_tell(), end)
    require(r.read(9) == 0x155, "data after the variable is intact")
    return back


def type_of_kind(kind):
    for k in VT:
        if kind.startswith(k):
            return VT[k]
    raise KeyError(kind)


@cases(kind=ALL, off=range(8))
def case_alone(kind, off):
    var = make(kind, "v")
    keep = clone(var)
    back = round_trip(var, type_of_kind(kind), off)
    same_var(keep, back, kind)
    require(back == keep, "variables compare equal")


@cases(k1=ALL, k2=ALL)
def case_struct_pair(k1, k2):
    """members of a struct do not disturb each other"""
    var = VariableStruct({"second_b": make(k1, "p"), "a": make(k2, "q")})
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.STRUCT, 3), "struct")


@cases(kind=ALL, count=[1, 2, 3])
def case_array_of(kind, count):
    elems = []
    cls = None
    for i in range(count):
        e = make(kind, "e" + str(i))
        cls = type(e)
        elems.append(e)
    var = VariableArray(cls, elems)
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.ARRAY, 5), "array")


@cases(kind=ALL)
def case_var_map(kind):
    """read_variable_map is the struct reader"""
    var = VariableStruct({"x": make(kind, "v")})
    keep = clone(var)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_variable(var)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    same_var(keep, VariableStruct(r.read_variable_map()), "map")


@cases(n=[1, 2, 3, 17, 40, 100, 257, 300])
def case_many_members(n):
    members = {}
    for i in range(n):
        members["m" + str((i * 7) % n)] = VariableUInt(u("v" + str(i), 32))
    var = VariableStruct(members)
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.STRUCT, 0), "struct")


@cases(header=[b"DF_STA", b"DF_CFG", b""], kind=["struct2", "array_string", "struct_deep", "float"])
def case_var_file(header, kind):
    data = {"b": make(kind, "v"), "a": VariableInt(s("i", 32))}
    keep = clone(VariableStruct(data))
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_var_file(header, data)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    same_var(keep, VariableStruct(r.read_var_file(header)), "file")


@cases(header=[b"DF_STA", b"DF_CFG"])
def case_var_file_header(header):
    """another header is refused"""
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_var_file(header, {"a": VariableInt(s("i", 32))})
    w.close()
    refused = False
    try:
        DFReader(io.BytesIO(buf.getvalue())).read_var_file(b"DF_XYZ")
    except Exception:
        refused = True
    require(refused, "a file with another header is refused")


LONG = [3, 31, 33, 64, 70] + ([7, 8, 9, 15, 16, 17, 32, 63, 65, 127, 128, 129, 255, 256, 257, 400] if THOROUGH else [256, 257])


@cases(kind=SCALAR + ["float_frac", "struct1", "array_uint", "array_string"], n=LONG)
def case_array_long(kind, n):
    elems = [make(kind, "v" + str(i)) for i in range(n)]
    var = VariableArray(type(elems[0]), elems)
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.ARRAY, 1), "array")


@cases(kind=["struct", "array", "mixed"], depth=[4, 9, 17, 33])
def case_deep(kind, depth):
    """nesting has no limit of its own"""
    var = VariableInt(s("v", 32))
    for i in range(depth):
        if kind == "struct" or (kind == "mixed" and i % 2):
            var = VariableStruct({"k": var, "j": VariableBool(flag("f" + str(i)))})
        else:
            var = VariableArray(type(var), [var])
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.STRUCT if isinstance(var, VariableStruct) else VariableType.ARRAY, 3), "tree")


@cases(name=["", "0", "a", "_", "{", "ZZ", "abcdefghij", "x" * 31, "y" * 61, "Z" * 62, "0" * 63])
def case_member_name(name):
    """names up to the longest the format holds"""
    var = VariableStruct({name: VariableInt(s("v", 32)), "q": VariableInt(5)})
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.STRUCT, 2), "struct")


TWINS = ["a", "a0", "a00", "0a", "A", "aA", "Aa", "_a", "a_", "", "0", "00", "000", "{", "{0", "Z", "z", "b" * 62, "b" * 63, "b" * 62 + "0", "B" * 63]


@cases(how=["one", "nested", "two reads"])
def case_similar_names(how):
    """names that differ in one character or in length only"""
    members = {n: VariableInt(s("v", 32) if i % 3 else i) for i, n in enumerate(TWINS)}
    if how == "one":
        var = VariableStruct(members)
    elif how == "nested":
        var = VariableStruct({n: VariableStruct({m: VariableUInt(u("w", 32))}) for n, m in zip(TWINS, TWINS[1:])})
    else:
        for n in TWINS:
            same_var(VariableStruct({n: VariableInt(3)}), round_trip(VariableStruct({n: VariableInt(3)}), VariableType.STRUCT, 0), "struct")
        var = VariableStruct({n: VariableBool(flag("f")) for n in TWINS[::-1]})
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.STRUCT, 2), "struct")


@cases(kind=ALL, other=["bool", "struct_deep", "array_string"])
def case_shared(kind, other):
    """one variable object in several places of a tree"""
    v, o = make(kind, "v"), make(other, "o")
    inner = VariableStruct({"k": v, "j": o})
    var = VariableStruct({"a": v, "b": o, "c": v, "d": inner, "e": VariableArray(type(v), [v, v, v]), "f": VariableArray(VariableStruct, [inner, VariableStruct({"k": v})])})
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.STRUCT, 2), "shared")


@cases(how=["value", "member", "name", "order", "array", "nested", "type", "other"])
def case_edited(how):
    """what is written is what the variable holds then, whatever was written before"""
    var = VariableStruct({"a": make("uint", "a"), "b": make("array_string", "b"), "c": make("struct2", "c"), "d": make("array_struct", "d"), "s": make("string3", "s")})
    same_var(clone(var), round_trip(var, VariableType.STRUCT, 0), "before")
    if how == "value":
        var.value["a"].value = u("na", 32)
        var.value["s"].value = sbytes("ns", 5)
    elif how == "member":
        var.value["n"] = make("int", "n")
        del var.value["s"]
    elif how == "name":
        var.value["renamed"] = var.value.pop("b")
    elif how == "order":
        var.value["a"] = var.value.pop("a")
    elif how == "array":
        var.value["b"].value[1].append(VariableString(sbytes("n", 4)))
        var.value["b"].value[1][0].value = b""
    elif how == "nested":
        var.value["c"].value["m"].value = flag("nm")
        var.value["d"].value[1][0].value["k"].value = u("nk", 32)
        var.value["d"].value[1].pop()
    elif how == "type":
        var.value["a"] = make("vec2", "v")
        var.value["b"] = make("array_uint", "w")
    elif how == "other":
        var = VariableStruct({"a": make("int", "x"), "b": make("array_uint", "y"), "c": make("struct1", "z")})
    keep = clone(var)
    same_var(keep, round_trip(var, VariableType.STRUCT, 0), "after")
    same_var(keep, round_trip(var, VariableType.STRUCT, 5), "after, elsewhere")


@cases(k1=ALL, k2=ALL)
def case_sequence(k1, k2):
    """several variables through one writer and one reader, with re-reading"""
    a, b = make(k1, "p"), make(k2, "q")
    ka, kb = clone(a), clone(b)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_variable(a)
    mid = w.bit_tell()
    w.write_variable(b)
    w.write_variable(a)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    same_var(ka, r.read_variable(type_of_kind(k1)), "first")
    require(r.bit_tell() == mid, "reader stops where the writer stopped")
    same_var(kb, r.read_variable(type_of_kind(k2)), "second")
    same_var(ka, r.read_variable(type_of_kind(k1)), "third")
    r.bit_seek(mid)
    same_var(kb, r.read_variable(type_of_kind(k2)), "second again")
