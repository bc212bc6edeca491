"""C11: size, count and offset fields of written files tell the truth."""

import io
import zlib

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.variable import VariableArray, VariableBool, VariableInt, VariableString, VariableStruct, VariableUInt
from rules.common import save, some_prop

RULE = (
    "The bytes produced by write_level / write_var_file / write_replay on abstract models are parsed by a decoder that "
    "belongs to the rule; every stored size, count, offset and length must equal the extent of what it describes, the "
    "parts must tile the file without gap or overlap, and regions must be in ascending unsigned coordinate order."
)


def le(data, at, n):
    return int.from_bytes(data[at : at + n], "little")


def check_segments(data, count, where):
    """the segments tile the uncompressed region data"""
    at = 0
    for _ in range(count):
        require(at + 25 <= len(data), where + ": segment inside the region")
        size = le(data, at, 4)
        require(size >= 25, where + ": segment size covers its header", size)
        at = at + size
    require(at == len(data), where + ": segment sizes add up to the region data", at, len(data))


def expected(level):
    """region -> its segments, and the regions with a backdrop"""
    segs, backs = {}, set()
    spots = [(x, y) for _, x, y in level.tiles]
    spots += [(x // 48, y // 48) for x, y, _ in level.entities.values()]
    spots += [(x // 48, y // 48) for _, x, y, _ in level.props.values()]
    for x, y in spots:
        x, y = int(x), int(y)
        segs.setdefault((x // 256 & 0xFFFF, y // 256 & 0xFFFF), set()).add((x // 16 & 15, y // 16 & 15))
    for _, x, y in level.backdrop.tiles:
        backs.add((x // 16 & 0xFFFF, y // 16 & 0xFFFF))
    for _, x, y, _ in level.backdrop.props.values():
        backs.add((int(x // 48) // 256 & 0xFFFF, int(y // 48) // 256 & 0xFFFF))
    return segs, backs


def check_level(data, start=0, level=None):
    total = len(data) - start
    require(data[start : start + 6] == b"DF_LVL", "file mark")
    require(le(data, start + 8, 4) == total, "file size field", le(data, start + 8, 4), total)
    regions = le(data, start + 12, 4)
    require(data[start + 16 : start + 22] == b"DF_MTD", "metadata mark")
    shot = le(data, start + 44, 4)
    r = DFReader(io.BytesIO(data))
    r.bit_seek((start + 48 + shot) * 8)
    r.read_variable_map()
    offsets = []
    for _ in range(regions):
        offsets.append(r.read(32))
    bits = r.bit_tell()
    base = (bits + 7) // 8
    require(base <= len(data), "directory inside the file")
    at = base
    last = None
    for i in range(regions):
        require(at == base + offsets[i], "directory offset leads to its region", i, offsets[i], at - base)
        size = le(data, at, 4)
        plain = le(data, at + 4, 4)
        coord = (le(data, at + 8, 2), le(data, at + 10, 2))
        count = le(data, at + 14, 2)
        back = le(data, at + 16, 1)
        require(back == 0 or back == 1, "backdrop marker")
        if level is not None:
            segs, backs = expected(level)
            require(coord in segs or coord in backs, "region has content", coord)
            require(count == len(segs.get(coord, ())), "number of segments", coord, count)
            require(back == (1 if coord in backs else 0), "backdrop marker of the region", coord)
        require(at + size <= len(data), "region inside the file")
        if last is not None:
            require(last < coord, "regions in ascending unsigned order", last, coord)
        last = coord
        content = zlib.decompress(data[at + 17 : at + size])
        require(len(content) == plain, "uncompressed length of the region", plain, len(content))
        check_segments(content, count + back, "region")
        at = at + size
    require(at == len(data), "regions end where the file ends", at, len(data))
    if level is not None:
        segs, backs = expected(level)
        require(regions == len(set(segs) | backs), "number of regions", regions)
    return regions


def variables(kind):
    if kind == "odd":
        return {"a": VariableBool(flag("vb"))}
    if kind == "some":
        return {"n": VariableString(sbytes("vs", 3)), "l": VariableArray(VariableUInt, [VariableUInt(u("v1", 32))])}
    if kind == "odd2":
        return {"abcd": VariableBool(flag("vb")), "e": VariableBool(True), "f": VariableInt(s("vi", 32))}
    return {}


COORDS = [
    [],
    [(0, 0)],
    [(1, 1), (0, 0)],
    [(0, 0), (16, 0)],
    [(300, 0), (0, 0)],
    [(0, 300), (0, 0), (300, 0)],
    [(-1, 0), (0, 0)],
    [(0, -1), (0, 0)],
    [(0, 0), (-300, -300), (300, -300), (-300, 300), (300, 300)],
    [(-1, -1), (-257, -257), (-257, -1), (255, 255), (256, 255)],
    [(255, -256), (-256, 255), (-255, 1000), (1000, -255)],
    [(5000, 7), (-5000, 7), (0, 7), (256, 7), (-256, 7)],
    [(3, 256 * r) for r in (0, -1, 1, -32768, 32767, -32767, 32766, -2, 16384, -16384)],
    [(256 * r, -3) for r in (0, -1, 1, -32768, 32767, -32767, 32766, -2, 16384, -16384)],
    [(256 * a, 256 * b) for a in (1, -2, 0) for b in (-1, 300, 0, -300)],
]


@cases(coords=COORDS, kind=["none", "odd", "odd2", "some"], shot=[0, 2])
def case_tiles(coords, kind, shot):
    level = Level()
    level.variables = variables(kind)
    level.sshot = sbytes("shot", shot)
    want = set()
    for i, (x, y) in enumerate(coords):
        level.tiles[(19, x, y)] = Tile(TileShape(i), sprite_tile=u("t" + str(i), 8))
        want.add((x // 256, y // 256))
    require(check_level(save(level), 0, level) == len(want), "one region per occupied region square")


@cases(what=["tile", "dust", "prop", "entity", "named", "vars"], other=["", "tile", "dust", "prop", "entity", "named", "vars"], spot=[(0, 0), (16, 16), (-1, 300)], backdrop=[False, True])
def case_parts(what, other, spot, backdrop):
    """every kind of content, in one or two segments"""
    level = Level()
    for n, (kind, x, y) in enumerate([(what, 3, 3), (other, spot[0], spot[1])]):
        part = level
        if kind == "tile":
            if backdrop:
                part = level.backdrop
            part.tiles[(18, x, y)] = Tile(TileShape.BIG_2, sprite_palette=u("pal" + str(n), 4))
        elif kind == "dust":
            t = Tile(TileShape.FULL)
            t.edge_data[2].filth_sprite_set = TileSpriteSet.CITY
            t.edge_data[2].filth_spike = flag("spike" + str(n))
            level.tiles[(19, x, y)] = t
        elif kind == "prop":
            if backdrop:
                part = level.backdrop
            part.add_prop(3, x * 48.0, y * 48.0, some_prop("p" + str(n)))
        elif kind == "entity":
            level.add_entity(x * 48.0, y * 48.0, Entity(None, u("rot" + str(n), 16)))
        elif kind == "named":
            e = Entity()
            e.etype = "z_abcde"
            level.add_entity(x * 48.0, y * 48.0, e)
        elif kind == "vars":
            level.add_entity(x * 48.0, y * 48.0, Entity({"q": VariableStruct({"r": VariableBool(flag("q" + str(n)))})}))
    check_level(save(level), 0, level)


@cases(n=[0, 1, 2, 3, 7], name=["plain", "z_x", "entity", "mixed"])
def case_names(n, name):
    """out-of-line names of different lengths"""
    level = Level()
    for i in range(n):
        e = Entity()
        e.etype = name if name != "mixed" else ["plain", "z_" + "q" * i, "entity"][i % 3]
        level.add_entity(4.0, 4.0 + i, e)
    check_level(save(level), 0, level)


@cases(coords=[[(0, 0)], [(0, -1), (0, 0)], [(20, 20), (-20, -20)]], what=["entity", "far tile", "prop", "nothing"])
def case_backdrop(coords, what):
    level = Level()
    for x, y in coords:
        level.backdrop.tiles[(4, x, y)] = Tile()
    if what == "entity":
        level.add_entity(10.0, 10.0, Entity())
    elif what == "far tile":
        level.tiles[(19, 3000, 3)] = Tile()
    elif what == "prop":
        level.backdrop.add_prop(3, 96.0, 480.0, some_prop("p"))
    check_level(save(level), 0, level)


@cases(pre=[1, 4], coords=[[], [(0, 0)], [(0, 0), (-300, 5)]], kind=["none", "odd"])
def case_after_other_data(pre, coords, kind):
    """a level written behind other data"""
    level = Level()
    level.variables = variables(kind)
    for x, y in coords:
        level.tiles[(4, x, y)] = Tile()
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_bytes(sbytes("pre", pre))
    w.write_level(level)
    w.close()
    check_level(buf.getvalue(), pre)


@cases(coords=[[(0, 0)], [(0, 0), (-300, 5)], []], kind=["none", "odd", "some"], shot=[0, 9])
def case_rewritten(coords, kind, shot):
    level = Level()
    level.variables = variables("odd2")
    for x, y in coords:
        level.tiles[(4, x, y)] = Tile()
    r = DFReader(io.BytesIO(save(level)))
    meta, offsets = r.read_level_ex()
    region = r.read_bytes(offsets[-1])
    meta.variables = variables(kind)
    meta.sshot = sbytes("shot", shot)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(meta, offsets, region)
    w.close()
    require(check_level(buf.getvalue()) == len(coords), "number of regions")


@cases(header=[b"DF_STA", b"DF_CFG", b"", b"ABCDEFGH"], kind=["none", "odd", "odd2", "some"], pre=[0, 3])
def case_var_file(header, kind, pre):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_bytes(sbytes("pre", pre))
    w.write_var_file(header, variables(kind))
    require(w.aligned(), "writer ends at a byte")
    end = w.bit_tell() // 8
    w.close()
    data = buf.getvalue()
    require(end == len(data), "writer ends at the end of the data", end, len(data))
    require(data[pre : pre + len(header)] == header, "header")
    require(le(data, pre + len(header) + 2, 4) == len(data) - pre, "size field", le(data, pre + len(header) + 2, 4), len(data))


BITS = [2, 2, 2, 2, 2, 4, 4, 4, 16, 16, 8]
STREAMS = {1: 7, 3: 8, 4: 11}


def stream_end(data, bits):
    """bits used by one run-length coded stream"""
    r = DFReader(io.BytesIO(data))
    while True:
        count = r.read(8)
        if count == 255:
            break
        r.read(bits)
    return (r.bit_tell() + 7) // 8


def check_replay(data, rep, start=0):
    at = start
    if data[at : at + 7] == b"DF_RPL2":
        at = at + 9 + le(data, at + 7, 2)
    require(data[at : at + 6] == b"DF_RPL", "replay mark")
    players = le(data, at + 7, 2)
    require(players == len(rep.players), "number of players")
    plain = le(data, at + 9, 4)
    at = at + 17 + players
    at = at + 1 + le(data, at, 1)
    content = zlib.decompress(data[at:])
    require(len(content) == plain, "uncompressed size field", plain, len(content))
    inputs = le(content, 0, 4)
    at = 4
    for _ in range(players):
        for i in range(STREAMS[rep.version]):
            size = le(content, at, 4)
            at = at + 4
            require(at + size <= len(content), "input stream inside the data")
            require(stream_end(content[at : at + size], BITS[i]) == size, "length of an input stream", i, size)
            at = at + size
    require(inputs == at - 4, "length of the input section", inputs, at - 4)
    count = le(content, at, 4)
    require(count == len(rep.entities), "number of entities with desync data")
    at = at + 4
    for _ in range(count):
        at = at + 12 + 20 * le(content, at + 8, 4)
    require(at == len(content), "desync data ends where the data ends", at, len(content))


def player(kind, version, n):
    p = PlayerData(Character.DUSTKID)
    if kind == "empty":
        return p
    for i in range(STREAMS[version]):
        stream = IntentStream(i)
        if i in (8, 9):
            vals = [0.0, 1.0, 0.5]
        elif i == 10:
            vals = [4, 4, 1]
        else:
            vals = [1, 1, 0, 1]
        if kind == "some" and i % 2:
            continue
        if kind == "abstract" and i in (2, 5):
            vals = [u(n + str(i) + "v", 2 if i == 2 else 4, 1), 0, 0]
        if kind == "long":
            vals = vals[:1] * (254 + i * 3) + vals
        p.intents[stream] = vals
    return p


@cases(version=[1, 3, 4], kind=["empty", "some", "all", "long", "abstract"], players=[0, 1, 2], user=[0, 3], frames=[None, 0, 2])
def case_replay(version, kind, players, user, frames):
    if version == 1 and players != 1:
        return
    rep = Replay(version=version, username=sbytes("user", user), level=sbytes("level", 4), frames=u("frames", 32))
    rep.players = [player(kind, version, "p" + str(i)) for i in range(players)]
    if frames is not None:
        rep.entities[u("e", 32, 100)] = EntityData([EntityFrame(frame=u("f" + str(i), 32), x_pos=1.5) for i in range(frames)])
        rep.entities[2] = EntityData([EntityFrame(frame=8)])
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep)
    w.close()
    check_replay(buf.getvalue(), rep)
