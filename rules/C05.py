"""C05: oversized strings are split losslessly or refused, never truncated."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableType,
    VariableUInt,
)

RULE = (
    "Byte strings are abstract blocks of unknown content whose lengths cover the boundary classes around multiples of "
    "65535; write_variable/read_variable are followed over them and must reproduce the same block with the neighbouring "
    "members intact. Entry and name limits must be met with ValueError exactly beyond the documented limits; name "
    "characters are abstract over the whole 7-bit range."
)

MAX = 65535
LENGTHS = [0, 1, 100, 65533, 65534, 65535, 65536, 65537, 131069, 131070, 131071, 196604, 196605, 196606, 300000, 655350]
if THOROUGH:
    LENGTHS = LENGTHS + [2, 3, 255, 256, 65530, 65538, 131060, 131080, 262139, 262140, 262141, 1310700, 1310701]


def round_trip(var, vt):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_variable(var)
    end = w.bit_tell()
    w.write(9, 0x155)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    back = r.read_variable(vt)
    require(r.bit_tell() == end, "reader stops where the writer stopped", r.bit_tell(), end)
    require(r.read(9) == 0x155, "data after the variable is intact")
    return back


@cases(n=LENGTHS)
def case_bare(n):
    v = VariableString(opaque("data", n))
    if n > MAX:
        refused = False
        try:
            round_trip(v, VariableType.STRING)
        except ValueError:
            refused = True
        require(refused, "a bare string longer than 65535 bytes is refused with ValueError")
    else:
        require_same(round_trip(v, VariableType.STRING).value, opaque("data", n), "bare string")


# the 4-bit type, the 6-bit length and one 6-bit character keep the string data byte aligned
@cases(n=LENGTHS)
def case_struct(n):
    v = VariableStruct({"a": VariableString(opaque("data", n))})
    back = round_trip(v, VariableType.STRUCT)
    require(list(back.value) == ["a"], "member names")
    require(type(back.value["a"]) is VariableString, "member type")
    require_same(back.value["a"].value, opaque("data", n), "string of a struct")


@cases(n=LENGTHS, k=[0, 5, 65534, 65535, 65536, 131070])
def case_struct_two(n, k):
    """a second string member directly behind the first"""
    v = VariableStruct({"a": VariableString(opaque("data", n)), "b": VariableString(opaque("more", k))})
    back = round_trip(v, VariableType.STRUCT)
    require(list(back.value) == ["a", "b"], "member names")
    require_same(back.value["a"].value, opaque("data", n), "first string")
    require_same(back.value["b"].value, opaque("more", k), "second string")


@cases(n=LENGTHS)
def case_struct_neighbours(n):
    # bool member: 4 + 12 + 1 bits, so the second one follows and three unaligned bits are made up by its name
    v = VariableStruct(
        {
            "n": VariableUInt(u("n", 32)),
            "a": VariableString(opaque("data", n)),
            "z": VariableInt(s("z", 32)),
            "y": VariableBool(flag("y")),
        }
    )
    back = round_trip(v, VariableType.STRUCT)
    require(list(back.value) == ["n", "a", "z", "y"], "member names and order")
    require(back.value["n"].value == u("n", 32), "member before the string")
    require_same(back.value["a"].value, opaque("data", n), "string of a struct")
    require(back.value["z"].value == s("z", 32), "member after the string")
    require(back.value["y"].value == flag("y"), "second member after the string")


def array_trip(values):
    """strings in an array: 4 type bits precede the count, so start at bit 4"""
    var = VariableArray(VariableString, [VariableString(x) for x in values])
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write(4, 0xA)
    w.write_variable(var)
    end = w.bit_tell()
    w.write(9, 0x155)
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    require(r.read(4) == 0xA, "data before the array")
    back = r.read_variable(VariableType.ARRAY)
    require(r.bit_tell() == end, "reader stops where the writer stopped", r.bit_tell(), end)
    require(r.read(9) == 0x155, "data after the array is intact")
    require(back.value[0] is VariableString, "element type")
    require(len(back.value[1]) == len(values), "number of strings", len(back.value[1]), len(values))
    return [x.value for x in back.value[1]]


@cases(n=LENGTHS)
def case_array_one(n):
    got = array_trip([opaque("data", n)])
    require_same(got, [opaque("data", n)], "string of an array")


@cases(n=LENGTHS, k=[0, 5, 65534, 65535, 65536, 131070])
def case_array_two(n, k):
    got = array_trip([opaque("p", k), opaque("data", n), opaque("q", k)])
    require_same(got, [opaque("p", k), opaque("data", n), opaque("q", k)], "strings of an array")


@cases(n=[0, 65535, 131070])
def case_array_last_full(n):
    """arrays ending in a string whose last part is full or empty"""
    got = array_trip([opaque("data", n), b"", opaque("data2", n)])
    require_same(got, [opaque("data", n), b"", opaque("data2", n)], "strings of an array")


@cases(count=[65535, 65536, 70000])
def case_array_count(count):
    cls = VariableBool
    max_loop(200000)
    var = VariableArray(cls, [cls()] * count)
    w = DFWriter(io.BytesIO(), noclose=True)
    refused = False
    try:
        w.write_variable(var)
    except ValueError:
        refused = True
    require(refused == (count > MAX), "arrays are refused with ValueError exactly beyond 65535 entries")


@cases(pair=[(65534, 65535), (65535, 65535), (65534, 131070), (1, 65535 * 65535), (1, 65535 * 65536)])
def case_array_count_strings(pair):
    """continuations count as entries"""
    count, long = pair
    max_loop(200000)
    vals = [VariableString(b"")] * (count - 1)
    vals.append(VariableString(opaque("data", long)))
    w = DFWriter(io.BytesIO(), noclose=True)
    w.write(4, 0)
    refused = False
    try:
        w.write_variable(VariableArray(VariableString, vals))
    except ValueError:
        refused = True
    require(refused == (count + long // MAX > MAX), "entries with continuations are limited to 65535", count, long)


@cases(n=[0, 1, 2, 5, 20, 62, 63, 64, 65, 100, 1000])
def case_name_length(n):
    name = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_{0123456789" * 20
    name = name[:n]
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    refused = False
    try:
        w.write_variable(VariableStruct({name: VariableUInt(7)}))
    except ValueError:
        refused = True
    require(refused == (n > 63), "names are refused with ValueError exactly beyond 63 characters")
    if n <= 63:
        w.close()
        back = DFReader(io.BytesIO(buf.getvalue())).read_variable(VariableType.STRUCT)
        require(list(back.value) == [name], "name read back")


def legal(c):
    return (48 <= c and c <= 57) or (65 <= c and c <= 90) or (97 <= c and c <= 122) or c == 95 or c == 123


@cases(n=[1, 2], at=[0, 1], off=[0, 5])
def case_name_chars(n, at, off):
    """any character: stored and read back if legal, refused with ValueError otherwise"""
    if at >= n:
        return
    text = sstr("c", n)
    for i in range(n):
        if i != at:
            assume(legal(ord(text[i])))
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write(off, 0)
    refused = False
    try:
        w.write_6bit_str(text)
    except ValueError:
        refused = True
    ok = legal(ord(text[at]))
    require(refused == (not ok), "characters outside [0-9A-Za-z_{] are refused with ValueError, others are not", ord(text[at]))
    if refused:
        return
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    r.read(off)
    back = r.read_6bit_str()
    require(len(back) == n, "length of the name read back")
    for i in range(n):
        require(ord(back[i]) == ord(text[i]), "character read back", ord(text[i]))
    require(r.bit_tell() == off + 6 + 6 * n, "reader stops after the name")


@cases(ch=["é", "\xff", "\u0130", "\u2603", "\U0001f600", "\x80", "ß", "٣", "０", "ª"])
def case_name_wide(ch):
    refused = False
    w = DFWriter(io.BytesIO(), noclose=True)
    try:
        w.write_6bit_str("a" + ch)
    except ValueError:
        refused = True
    require(refused, "characters beyond ASCII are refused with ValueError")


@cases(v=range(64))
def case_read_char(v):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write(6, 1)
    w.write(6, v)
    w.close()
    want = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"[v]
    require(DFReader(io.BytesIO(buf.getvalue())).read_6bit_str() == want, "6-bit character code")
