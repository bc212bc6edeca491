"""C15: reading any input terminates, however truncated or malformed."""

import io
import zlib

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableType,
    VariableUInt,
    VariableVec2,
)
from rules.common import save, some_prop

TERMINATION = True
RULE = (
    "Every loop of the readers is unrolled by the analyser on all truncations of files of each kind (also truncated inside "
    "the compressed parts), on files with damaged type, length and run-length bytes and on inputs that start with every "
    "byte value and then end; a loop that is still running after more iterations than the input and its stored counts "
    "allow is reported with its location."
)


def attempt(f):
    """the call must come to an end, with a value or an exception"""
    try:
        f()
    except Exception:
        pass
    require(True, "reading ended")


def variables():
    return {
        "b": VariableBool(True),
        "i": VariableInt(-5),
        "u": VariableUInt(7),
        "f": VariableFloat(1.5),
        "s": VariableString(b"abc"),
        "v": VariableVec2((1.0, -2.0)),
        "st": VariableStruct({"x": VariableString(b"xy"), "y": VariableStruct({})}),
        "sa": VariableArray(VariableString, [VariableString(b"p"), VariableString(b"")]),
        "ia": VariableArray(VariableInt, [VariableInt(1), VariableInt(2)]),
    }


def var_file():
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_var_file(b"DF_CFG", variables())
    w.close()
    return buf.getvalue()


def replay(version):
    rep = Replay(version=version, username=b"me", level=b"lvl", frames=50)
    for n in range(1 if version == 1 else 2):
        p = PlayerData(Character.DUSTGIRL)
        p.intents[IntentStream.X] = [0, 1, 1, -1]
        p.intents[IntentStream.JUMP] = [1] * 300
        p.intents[IntentStream.LIGHT] = [10, 9, 8]
        rep.players.append(p)
    rep.entities[2] = EntityData([EntityFrame(8, 1.0, 2.0, 3.0, 4.0)])
    rep.entities[3] = EntityData([])
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep)
    w.close()
    return buf.getvalue()


def level():
    l = Level()
    l.variables = {"a": VariableString(b"name"), "b": VariableBool(True)}
    l.sshot = b"shot"
    t = Tile(TileShape.BIG_1)
    t.edge_data[1].filth_sprite_set = TileSpriteSet.CITY
    l.tiles[(19, 1, 1)] = t
    l.tiles[(4, 20, 1)] = Tile()
    l.add_prop(3, 40.0, 50.0, some_concrete_prop())
    l.add_entity(10.0, 20.0, Entity({"q": VariableInt(3)}))
    e = Entity()
    e.etype = "z_named"
    l.add_entity(11.0, 20.0, e)
    l.backdrop.tiles[(2, 0, 0)] = Tile()
    return l


def some_concrete_prop():
    from dustmaker.prop import Prop

    return Prop(1, 2, True, False, 1.0, 3, 4, 5, 6)


def read_level(data):
    r = DFReader(io.BytesIO(data))
    return r.read_level()


def read_replay(data, known):
    r = DFReader(io.BytesIO(data))
    return r.read_replay(known_length=len(data)) if known else r.read_replay()


def read_vars(data):
    r = DFReader(io.BytesIO(data))
    return r.read_var_file(b"DF_CFG")


def le(data, at, n):
    return int.from_bytes(data[at : at + n], "little")


PARTS = list(range(16))


@cases(part=PARTS)
def case_level_prefix(part):
    max_loop(5000)
    data = save(level())
    for k in range(part, len(data), 16):
        attempt(lambda: read_level(data[:k]))


@cases(part=PARTS)
def case_region_prefix(part):
    """the uncompressed segments end early"""
    max_loop(5000)
    data = save(level())
    shot = le(data, 44, 4)
    r = DFReader(io.BytesIO(data))
    r.bit_seek((48 + shot) * 8)
    r.read_variable_map()
    base = (r.bit_tell() + 32 + 7) // 8
    size = le(data, base, 4)
    content = zlib.decompress(data[base + 17 : base + size])
    require(len(content) > 60, "the level has content")
    for k in range(part, len(content), 16):
        packed = zlib.compress(content[:k])
        head = (17 + len(packed)).to_bytes(4, "little") + data[base + 4 : base + 17]
        attempt(lambda: read_level(data[:base] + head + packed))


@cases(part=PARTS)
def case_var_prefix(part):
    max_loop(5000)
    data = var_file()
    for k in range(part, len(data), 16):
        attempt(lambda: read_vars(data[:k]))


@cases(version=[1, 3, 4], part=range(4), known=[False, True])
def case_replay_prefix(version, part, known):
    max_loop(5000)
    data = replay(version)
    for k in range(part, len(data), 4):
        attempt(lambda: read_replay(data[:k], known))


def replay_parts(data):
    at = 9 + le(data, 7, 2)
    at = at + 17 + le(data, at + 7, 2)
    at = at + 1 + le(data, at, 1)
    return at, zlib.decompress(data[at:])


@cases(version=[1, 3, 4], part=range(4), known=[False, True])
def case_replay_content_prefix(version, part, known):
    """the uncompressed inputs end early"""
    max_loop(5000)
    data = replay(version)
    at, content = replay_parts(data)
    require(len(content) > 60, "the replay has content")
    for k in range(part, len(content), 4):
        attempt(lambda: read_replay(data[:at] + zlib.compress(content[:k]), known))


@cases(version=[1, 4], part=range(6), val=[0, 255, 254, 128])
def case_replay_content_damaged(version, part, val):
    """a damaged byte in the input streams (run lengths and values)"""
    max_loop(5000)
    data = replay(version)
    at, content = replay_parts(data)
    pos, n = 4, 0
    for _ in range(11 * 2 if version == 4 else 7):
        size = le(content, pos, 4)
        pos = pos + 4
        for k in range(pos, pos + size):
            n = n + 1
            if n % 6 == part:
                attempt(lambda: read_replay(data[:at] + zlib.compress(content[:k] + bytes([val]) + content[k + 1 :]), False))
                attempt(lambda: read_replay(data[:at] + zlib.compress(content[:k] + bytes([val]) * (pos + size - k)), False))
        pos = pos + size


@cases(version=[1, 3, 4], size=[0, 1, 2, 1000], which=[0, 3, 6])
def case_replay_stream_length(version, size, which):
    """a wrong stream length, data ending behind the stream"""
    max_loop(5000)
    data = replay(version)
    at, content = replay_parts(data)
    pos = 4
    for _ in range(which):
        pos = pos + 4 + le(content, pos, 4)
    own = le(content, pos, 4)
    for cut in range(own):
        attempt(lambda: read_replay(data[:at] + zlib.compress(content[:pos] + size.to_bytes(4, "little") + content[pos + 4 : pos + 4 + cut]), False))


def one_variable(kind):
    if kind == "struct":
        return {"a": VariableStruct({"b": VariableStruct({"c": VariableInt(3)})})}
    if kind == "string":
        return {"a": VariableString(b"some bytes"), "b": VariableString(b"")}
    if kind == "strings":
        return {"a": VariableArray(VariableString, [VariableString(b"x"), VariableString(b"yz")])}
    if kind == "structs":
        return {"a": VariableArray(VariableStruct, [VariableStruct({"x": VariableString(b"q")}), VariableStruct({})])}
    if kind == "arrays":
        return {"a": VariableArray(VariableArray, [VariableArray(VariableBool, [VariableBool(True)])])}
    return {"i": VariableInt(-1), "f": VariableFloat(2.5), "b": VariableBool(True)}


@cases(kind=["struct", "string", "strings", "structs", "arrays", "scalars"] if THOROUGH else ["struct", "string", "scalars"], part=range(8))
def case_struct_damaged(kind, part):
    """every bit of a small variable map flipped, and the map cut behind it"""
    max_loop(70000)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_variable(VariableStruct(one_variable(kind)))
    w.close()
    data = buf.getvalue()
    for k in range(part, len(data), 8):
        for bit in range(8):
            damaged = data[:k] + bytes([data[k] ^ (1 << bit)])
            attempt(lambda: DFReader(io.BytesIO(damaged)).read_variable_map())
            attempt(lambda: DFReader(io.BytesIO(damaged + data[k + 1 :])).read_variable_map())


@cases(hi=range(16))
def case_struct_first_byte(hi):
    """every first byte, then nothing"""
    max_loop(70000)
    for lo in range(16):
        for rest in (b"", b"\x00", b"\xff\x0f"):
            attempt(lambda: DFReader(io.BytesIO(bytes([hi * 16 + lo]) + rest)).read_variable_map())


@cases(vtype=[1, 2, 3, 4, 5, 10, 14, 15, 0, 6], n=[0, 1, 2, 3])
def case_variable_bytes(vtype, n):
    """each variable type on an input of equal bytes that ends early"""
    max_loop(70000)
    for val in (0, 1, 5, 0x55, 0xF5, 0x15, 0xFF, 0x0F, 0xEE, 0xAA):
        if vtype == 15 and n > 1 and val != 0 and val != 1:
            continue
        attempt(lambda: DFReader(io.BytesIO(bytes([val]) * n)).read_variable(VariableType(vtype)))


@cases(atype=[0, 1, 2, 3, 4, 5, 10, 14, 15, 9], n=[0, 1, 2, 40])
def case_array_cut(atype, n):
    """an array that announces more members than there are"""
    max_loop(5000)
    for count in (0, 1, 3, 50):
        head = (atype | (count << 4)).to_bytes(3, "little")
        for fill in (0, 1, 0x55):
            attempt(lambda: DFReader(io.BytesIO(head + bytes([fill]) * n)).read_variable(VariableType.ARRAY))


@cases(n=[65535, 65600] if THOROUGH else [65535], kind=["struct", "array"], back=[0, 1, 2, 3, 5, 12, 40, 70] if THOROUGH else [0, 2, 3, 9])
def case_long_string_cut(n, kind, back):
    """a string with a continuation that is missing or cut"""
    max_loop(70000)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    if kind == "struct":
        w.write_variable(VariableStruct({"a": VariableString(b"q" * n), "b": VariableInt(3)}))
    else:
        w.write_variable(VariableArray(VariableString, [VariableString(b"q" * n), VariableString(b"r")]))
    w.close()
    data = buf.getvalue()
    vtype = VariableType.STRUCT if kind == "struct" else VariableType.ARRAY
    attempt(lambda: DFReader(io.BytesIO(data[: len(data) - back])).read_variable(vtype))


@cases(mark=[b"DF_LVL", b"DF_RPL", b"DF_CFG", b"DF_STA", b"", b"garbage"], n=[0, 1, 2, 4, 8, 40])
def case_header_only(mark, n):
    max_loop(5000)
    for fill in (b"\x00", b"\x30", b"\x2c"):
        attempt(lambda: read_level(mark + fill * n))
        attempt(lambda: read_replay(mark + fill * n, False))
        attempt(lambda: read_vars(mark + fill * n))


@cases(version=[0, 1, 2, 3, 4], n=[0, 1, 3, 20], user=[0, 3])
def case_replay_without_data(version, n, user):
    """a replay header with nothing or garbage behind it"""
    max_loop(5000)
    head = b"DF_RPL2" + user.to_bytes(2, "little") + b"u" * user if user else b""
    head = head + b"DF_RPL" + bytes([48 + version]) + (1).to_bytes(2, "little") + bytes(8) + b"\x00" + b"\x02ab"
    for fill in (b"\x00", b"\xff", b"\x78\x9c"):
        attempt(lambda: read_replay(head + fill * n, False))
        attempt(lambda: read_replay(head + fill * n, True))
