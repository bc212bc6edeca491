"""C32: older supported layouts are read by their own rules, foreign files are refused."""

import io
import zlib

from dustmaker.dfreader import DFReader, read_level
from dustmaker.exceptions import LevelParseException
from dustmaker.level import LevelType
from dustmaker.replay import IntentStream
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from rules.common import any_tile
from rules.layout import TAGS, Layout, dust_bytes, level_file, region_file, segment, tile_bytes

RULE = (
    "Files of every supported version are built, with abstract contents, from the rule's own bit-level description (no code "
    "of the library is involved) and traced through the readers: the contents must come out, whatever sections are present "
    "and whatever the ignored fields hold. Files with any other mark or an unsupported version must raise LevelParseException."
)


def variables(level_type=None):
    f = Layout()
    if level_type is not None:
        f.put(4, TAGS["int"], "tag")
        f.name("level_type", "name")
        f.put(32, level_type, "value")
    f.put(4, 0, "end")
    return f


def file_with(seg, version=44, level_type=None, backdrop=None, region=(0, 0), region_version=14, meta_version=4, extra=b""):
    plain = seg.build() + extra + (b"" if backdrop is None else backdrop.build())
    r = region_file(region[0], region[1], plain, 1, 0 if backdrop is None else 1, region_version)
    return level_file(variables(level_type), [r], version=version, meta_version=meta_version).build() + r


def tiles_of(f, tiles):
    """layers with their tiles: {layer: [(x, y, tile)]}"""
    f.put(8, len(tiles), "layers")
    for layer, ts in tiles.items():
        f.put(8, layer, "layer")
        f.put(10, len(ts), "tiles")
        for x, y, t in ts:
            f.put(5, x, "x")
            f.put(5, y, "y")
            f.put(5, t.shape, "shape")
            f.put(3, t.tile_flags, "flags")
            tile_bytes(f, t, "tile")


def dusts_of(f, dusts):
    f.put(10, len(dusts), "dusts")
    for x, y, t in dusts:
        f.put(5, x, "x")
        f.put(5, y, "y")
        dust_bytes(f, t, "dust")


def prop_of(f, n, ident, old, x, y):
    """old: fixed-point position without a scale"""
    f.put(32, ident, "id")
    f.put(8, u(n + "layer", 8), "layer")
    f.put(8, u(n + "sub", 8), "sublayer")
    if old:
        # whole part and three fraction bits
        f.fixed(28, 4, 0, x, 3, "x")
        f.fixed(28, 4, 1, y, 5, "y")
    else:
        f.put(1, 0, "sign")
        f.put(27, x, "x")
        f.put(4, (37 // 7) ^ 4, "scale")
        f.put(1, 1, "sign")
        f.put(27, y, "y")
        f.put(4, (37 % 7) ^ 4, "scale")
    f.put(16, u(n + "rot", 16), "rotation")
    f.put(1, flag(n + "fx"), "flip x")
    f.put(1, flag(n + "fy"), "flip y")
    f.put(8, u(n + "set", 8), "set")
    f.put(12, u(n + "group", 12), "group")
    f.put(12, u(n + "index", 12), "index")
    f.put(8, u(n + "pal", 8), "palette")


def check_prop(level, n, ident, old, x, y):
    require(ident in level.props, "prop is read", ident)
    if ident not in level.props:
        return
    layer, gx, gy, p = level.props[ident]
    require(layer == u(n + "layer", 8) and p.layer_sub == u(n + "sub", 8), "prop layers")
    if old:
        require(gx == x + 0.375 and gy == -y + 0.625, "fixed-point position", gx, gy)
        require(p.scale == 1.0, "old props have scale one", p.scale)
    else:
        require(gx == x and gy == -y, "whole position", gx, gy)
        require(abs(p.scale - 50.0 ** (5 / 24.0)) < 1e-9, "coded scale", p.scale)
    require(p.rotation == u(n + "rot", 16) and p.flip_x == flag(n + "fx") and p.flip_y == flag(n + "fy"), "prop orientation")
    require(p.prop_set == u(n + "set", 8) and p.prop_group == u(n + "group", 12) and p.prop_index == u(n + "index", 12) and p.palette == u(n + "pal", 8), "prop sprite")


def entity_of(f, n, ident, etype):
    f.put(32, ident, "id")
    f.name(etype, "type")
    raw = u(n + "x", 20)
    f.fixed(32, 8, 0, raw >> 7, raw & 0x7F, "x")
    f.fixed(32, 8, 1, 9, 32, "y")
    f.put(16, u(n + "rot", 16), "rotation")
    f.put(8, u(n + "layer", 8), "layer")
    f.put(1, flag(n + "fx"), "face x")
    f.put(1, flag(n + "fy"), "face y")
    f.put(1, flag(n + "vis"), "visible")
    f.put(4, TAGS["uint"], "tag")
    f.name("v_1", "name")
    f.put(32, u(n + "v", 32), "value")
    f.put(4, 0, "end")


def check_entity(level, n, ident, etype):
    require(ident in level.entities, "entity is read", ident)
    if ident not in level.entities:
        return
    x, y, e = level.entities[ident]
    require(e.etype == etype, "entity type", e.etype, etype)
    require(x == dyadic(n + "x", 20, 7, False) and y == -8.75, "entity position", x, y)
    require(e.rotation == u(n + "rot", 16) and e.layer == u(n + "layer", 8), "entity rotation and layer")
    require(e.flip_x == (not flag(n + "fx")) and e.flip_y == (not flag(n + "fy")) and e.visible == flag(n + "vis"), "entity flags")
    require(list(e.variables) == ["v_1"] and e.variables["v_1"].value == u(n + "v", 32), "entity variables")


def trail(f, names):
    """names with the distance back to them"""
    start = f.n
    for t in names:
        f.name(t, "extended name")
    f.pad()
    f.put(32, f.n - start, "distance")


VERSIONS = [0, 4, 5, 6, 7, 8, 9]
PARTS = [(), ("tile",), ("dust",), ("prop",), ("entity",), ("tile", "entity"), ("dust", "prop"), ("prop", "entity"), ("dust", "prop", "entity")]


@cases(version=VERSIONS, parts=PARTS, level_type=[None, LevelType.NORMAL, LevelType.DUSTMOD])
def case_segment(version, parts, level_type):
    """every segment version with every set of sections"""
    flags = 0
    f = Layout()
    dust = "dust" in parts
    old = version <= 6 and level_type != LevelType.DUSTMOD
    sets = [TileSpriteSet(i) for i in (0, 3, 0, 7)]
    t1 = any_tile("a", TileShape.BIG_2, TileSpriteSet.CITY, sets if dust else None)
    t2 = any_tile("b", TileShape.HALF_C, TileSpriteSet.MANSION)
    if "tile" in parts or dust:
        flags |= 1
        tiles_of(f, {4: [(1, 2, t2)], 19: [(15, 0, t1), (0, 15, t2)]})
    if dust:
        flags |= 2
        # dust on a square without a tile is skipped
        dusts_of(f, [(3, 3, t1), (15, 0, t1)])
    if "prop" in parts:
        flags |= 8
        f.put(16, 2, "props")
        prop_of(f, "p", 500, old, 37, 12)
        prop_of(f, "q", 501, old, 700, 30)
    if "entity" in parts:
        flags |= 4
        f.put(16, 2, "entities")
        entity_of(f, "e", 600, "entity" if version > 7 else "z_old")
        entity_of(f, "g", 601, "camera_node")
        if version > 7:
            trail(f, ["z_new"])
    seg = segment(2, 1, flags, f, version, u("d", 16), u("en", 16), u("su", 16), u("bl", 16))
    level = read_level(file_with(seg, 44, level_type, extra=b""))
    if "tile" in parts or dust:
        require(len(level.tiles) == 3, "number of tiles", list(level.tiles))
        require(level.tiles.get((19, 47, 16)) == t1, "tile with its filth at its place")
        require(level.tiles.get((4, 33, 18)) == t2 and level.tiles.get((19, 32, 31)) == t2, "tiles at their places")
    else:
        require(len(level.tiles) == 0, "no tiles")
    require(len(level.props) == (2 if "prop" in parts else 0), "number of props", len(level.props))
    if "prop" in parts:
        check_prop(level, "p", 500, old, 37, 12)
        check_prop(level, "q", 501, old, 700, 30)
    require(len(level.entities) == (2 if "entity" in parts else 0), "number of entities", len(level.entities))
    if "entity" in parts:
        check_entity(level, "e", 600, "z_new" if version > 7 else "z_old")
        check_entity(level, "g", 601, "camera_node")


@cases(version=VERSIONS, etype=["entity", "z_x", "other"], tail=[False, True])
def case_plain_names(version, etype, tail):
    """before version 8 the stored type is the type, whatever it is; later only "entity" has an extended name"""
    f = Layout()
    f.put(16, 1, "entities")
    entity_of(f, "e", 600, etype)
    ext = version > 7 and etype == "entity"
    if ext or tail:
        trail(f, ["z_button"])
    level = read_level(file_with(segment(0, 0, 4, f, version)))
    check_entity(level, "e", 600, "z_button" if ext else etype)


@cases(types=[("entity", "camera_node", "entity"), ("camera_node", "entity", "entity"), ("entity", "entity", "camera_node"), ("entity",)], gap=[0, 1, 7])
def case_extended_names(types, gap):
    """extended names go to the entities that lack one, in order; they sit behind any other trailing data"""
    names = ["z_a", "entity", "z_longer_name_3"]
    f = Layout()
    f.put(16, len(types), "entities")
    for i, t in enumerate(types):
        entity_of(f, "e" + str(i), 600 + i, t)
    f.pad()
    f.n += 8 * gap
    trail(f, names[: types.count("entity")])
    level = read_level(file_with(segment(0, 0, 4, f)))
    k = 0
    for i, t in enumerate(types):
        want = t
        if t == "entity":
            want = names[k]
            k += 1
        check_entity(level, "e" + str(i), 600 + i, want)


@cases(extra=[0, 1, 9, 70000], n=[2, 3], backdrop=[False, True], version=VERSIONS, part=["tile", "prop", "entity", "none"])
def case_segment_size(extra, n, backdrop, version, part):
    """the size field leads to the next segment, also past data the reader does not know"""
    t = [Tile(TileShape(i)) if extra > 1000 else any_tile("t" + str(i), TileShape(i)) for i in range(4)]
    plain = b""
    for i in range(n):
        f = Layout()
        flags = 0
        if part != "none" or i == n - 1:
            flags = 1
            tiles_of(f, {3: [(i, 1, t[i])]})
        if part == "prop":
            flags |= 8
            f.put(16, 1, "props")
            prop_of(f, "p" + str(i), 500 + i, version <= 6, 37, 12)
        if part == "entity":
            flags |= 4
            f.put(16, 1, "entities")
            entity_of(f, "e" + str(i), 600 + i, "other")
        f.pad()
        f.n += 8 * extra
        plain = plain + segment(i, 0, flags, f, version).build()
    if backdrop:
        f = Layout()
        tiles_of(f, {6: [(5, 6, t[3])]})
        plain = plain + segment(0, 0, 1, f, version).build()
    r = region_file(1, 0xFFFF, plain, n, 1 if backdrop else 0)
    level = read_level(level_file(variables(), [r]).build() + r)
    require(len(level.tiles) == (1 if part == "none" else n), "one tile per segment", len(level.tiles))
    for i in range(n):
        if part != "none" or i == n - 1:
            require(level.tiles.get((3, 256 + 17 * i, -255)) == t[i], "tile of each segment", i)
        if part == "prop":
            check_prop(level, "p" + str(i), 500 + i, version <= 6, 37, 12)
        if part == "entity":
            check_entity(level, "e" + str(i), 600 + i, "other")
    require(len(level.backdrop.tiles) == (1 if backdrop else 0), "backdrop tile")
    if backdrop:
        require(level.backdrop.tiles.get((6, 16 + 5, -16 + 6)) == t[3], "backdrop tile at its place")


@cases(version=[43, 44, 45, 1000], shot=[0, 3], region_version=[0, 14, 99], meta=[0, 4, 7])
def case_level_version(version, shot, region_version, meta):
    """version 43 has no screenshot; the other version fields do not matter"""
    t = any_tile("t", TileShape.SMALL_3)
    f = Layout()
    tiles_of(f, {3: [(2, 1, t)]})
    r = region_file(0, 0, segment(0, 0, 1, f).build(), 1, 0, region_version)
    image = sbytes("shot", shot) if version > 43 else b""
    data = level_file(variables(3), [r], image, version, 777, meta).build() + r
    level = read_level(data)
    require(level.sshot == image, "screenshot")
    require(level.level_type == 3, "variables")
    require(level.tiles == {(3, 2, 1): t}, "contents")
    only = DFReader(io.BytesIO(data)).read_level(metadata_only=True)
    require(only.sshot == image and only.level_type == 3, "metadata alone")


def refused(data, what, **kw):
    """the reader raises LevelParseException"""
    r = DFReader(io.BytesIO(data))
    try:
        if what == "level":
            r.read_level()
        elif what == "meta":
            r.read_level(metadata_only=True)
        elif what == "ex":
            r.read_level_ex()
        elif what == "replay":
            r.read_replay(**kw)
        else:
            r.read_var_file(b"DF_STA")
    except LevelParseException:
        return
    fail(what + ": a foreign file is refused with LevelParseException")


@cases(how=["level", "meta", "ex"], version=list(range(0, 43)))
def case_level_too_old(how, version):
    refused(level_file(variables(), [], version=version).build(), how)


@cases(how=["level", "meta", "ex"], part=["mark", "meta"], at=list(range(6)))
def case_level_mark(how, part, at):
    """any other byte at any place of the marks"""
    data = level_file(variables(), []).build()
    pos = at + (0 if part == "mark" else 16)
    b = u("byte", 8)
    assume(b != data[pos])
    refused(data[:pos] + bytes([b]) + data[pos + 1 :], how)


@cases(at=list(range(6)))
def case_var_mark(at):
    f = Layout()
    f.raw(b"DF_STA", "mark")
    f.put(16, 1, "version")
    f.put(32, 13, "size")
    f.put(4, 0, "end")
    data = f.build()
    b = u("byte", 8)
    assume(b != data[at])
    refused(data[:at] + bytes([b]) + data[at + 1 :], "var")


@cases(version=[0, 1, 2, 500], size=[0, 13, 2**32 - 1])
def case_var_version(version, size):
    """version and size of a variable file do not matter"""
    f = Layout()
    f.raw(b"DF_STA", "mark")
    f.put(16, version, "version")
    f.put(32, size, "size")
    f.put(4, TAGS["bool"], "tag")
    f.name("q", "name")
    f.put(1, flag("q"), "value")
    f.put(4, 0, "end")
    got = DFReader(io.BytesIO(f.build())).read_var_file(b"DF_STA")
    require(list(got) == ["q"] and got["q"].value == flag("q"), "variables")


WIDTHS = [(2, 1), (2, 1), (2, 1), (2, 1), (2, 1), (4, 1), (4, 1), (4, 3), (16, 4), (16, 4), (8, 4)]


def replay_file(version, players, user=None, count=None, inner_version=None, mark=b"DF_RPL"):
    f = Layout()
    if user is not None:
        f.raw(b"DF_RPL2", "user mark")
        f.put(16, len(user), "user length")
        f.raw(user, "user")
    f.raw(mark, "mark")
    f.put(8, version + 48 if inner_version is None else inner_version, "version")
    f.put(16, players if count is None else count, "players")
    inner = Layout()
    inputs = Layout()
    for p in range(players):
        for k, (w, since) in enumerate(WIDTHS):
            if since > version:
                continue
            g = Layout()
            g.put(8, 2, "run")
            g.put(w, u("v" + str(p) + "." + str(k), w), "value")
            g.put(8, 0, "run")
            g.put(w, 0, "closing value")
            g.put(8, 255, "end")
            g.pad()
            inputs.put(32, g.n // 8, "size")
            inputs.join(g)
    inner.put(32, inputs.n // 8, "inputs")
    inner.join(inputs)
    inner.put(32, 1, "entities")
    inner.put(32, 77, "id")
    inner.put(32, 0, "number")
    inner.put(32, 1, "frames")
    for n in range(5):
        inner.put(32, s("f" + str(n), 32), "frame")
    f.put(32, inner.n // 8, "size")
    f.put(32, u("frames", 32), "frames")
    for p in range(players):
        f.put(8, p, "character")
    f.put(8, 2, "level length")
    f.raw(sbytes("lev", 2), "level")
    return f.build() + zlib.compress(inner.build())


def value(k, raw):
    if k < 2:
        return raw - 1
    if k in (8, 9):
        return raw / 32767.0
    return raw


@cases(version=[1, 3, 4], players=[1, 2], user=[None, 0, 2], known=[False, True])
def case_replay(version, players, user, known):
    if version == 1 and players > 1:
        return
    name = None if user is None else sbytes("user", user)
    data = replay_file(version, players, name)
    r = DFReader(io.BytesIO(data))
    rep = r.read_replay(known_length=len(data)) if known else r.read_replay()
    require(rep.version == version, "version", rep.version)
    require(bytes(rep.username) == (b"" if name is None else name), "user name")
    require(bytes(rep.level) == sbytes("lev", 2) and rep.frames == u("frames", 32), "level name and frame count")
    require(len(rep.players) == players, "players")
    for p in range(players):
        got = rep.players[p].intents
        require(rep.players[p].character == p, "character")
        for k, (w, since) in enumerate(WIDTHS):
            stream = IntentStream(k)
            if since > version:
                require(stream not in got, "streams of later versions are absent", k)
                continue
            require(stream in got, "stream of this version", k)
            raw = u("v" + str(p) + "." + str(k), w)
            vals = got[stream]
            require(len(vals) == 3, "recorded frames", k, len(vals))
            require(vals[0] == 0 and vals[1] == 0, "neutral frames before the first value", k)
            require(vals[2] == value(k, raw), "recorded value", k, vals[2])
    require(list(rep.entities) == [77] and len(rep.entities[77].frames) == 1, "desync data")
    fr = rep.entities[77].frames[0]
    require(fr.x_pos == s("f1", 32) / 10.0 and fr.y_pos == s("f2", 32) / 10.0, "desync position")
    require(fr.x_speed == s("f3", 32) / 100.0 and fr.y_speed == s("f4", 32) / 100.0, "desync speed")


@cases(count=[0, 1, 2, 0xFFFF], known=[False, True])
def case_replay_single(count, known):
    """version 1 has one player whatever its player field holds"""
    data = replay_file(1, 1, None, count)
    r = DFReader(io.BytesIO(data))
    rep = r.read_replay(known_length=len(data)) if known else r.read_replay()
    require(len(rep.players) == 1 and list(rep.entities) == [77], "one player")


@cases(digit=[b for b in range(256) if b not in (49, 51, 52)], user=[None, 2], known=[False, True])
def case_replay_version(digit, user, known):
    """a version other than 1, 3, 4 (2 only announces a user name)"""
    if digit == 50 and user is None:
        return
    data = replay_file(4, 1, None if user is None else sbytes("user", user), None, digit)
    if known:
        refused(data, "replay", known_length=len(data))
    else:
        refused(data, "replay")


@cases(at=list(range(6)), user=[None, 3])
def case_replay_mark(at, user):
    b = u("byte", 8)
    mark = b"DF_RPL"
    assume(b != mark[at])
    refused(replay_file(4, 1, None if user is None else sbytes("user", user), None, None, mark[:at] + bytes([b]) + mark[at + 1 :]), "replay")
