"""C31: written files keep the one fixed binary layout."""

import io
import zlib

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter, write_level
from dustmaker.entity import EnemyBear, Entity
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, MouseState, PlayerData, Replay
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)
from rules.common import any_tile, some_prop
from rules.layout import CHARS, TAGS, Layout, dust_bytes, le, level_file, region_file, segment, tile_bytes, var_file

RULE = (
    "The bytes traced out of write_var_file, write_level and write_replay over abstract models are compared field by field "
    "(position, width, value) with a bit-level description of the format that belongs to the rule and shares nothing with "
    "the code; bytes built from the description alone must also be read as the described values."
)


def put_number(f, name, what):
    """an abstract 31.31 number with 8 whole and 31 fraction bits; gives the float"""
    raw = u(name, 39)
    f.fixed(32, 32, 0, raw >> 31, raw & 0x7FFFFFFF, what)
    return dyadic(name, 39, 31, False)


def sample(kind, f, n):
    """variable of the kind and its fields (without the tag)"""
    if kind == "bool":
        b = flag(n)
        f.put(1, b, "truth value")
        return VariableBool(b)
    if kind == "int":
        v = s(n, 32)
        f.put(32, v, "signed value")
        return VariableInt(v)
    if kind == "uint":
        v = u(n, 32)
        f.put(32, v, "unsigned value")
        return VariableUInt(v)
    if kind == "float":
        return VariableFloat(put_number(f, n, "number"))
    if kind == "negative":
        # -3 + fraction: the stored whole part is the magnitude of the floor
        raw = u(n, 31)
        f.fixed(32, 32, 1, 3, raw, "negative number")
        return VariableFloat(-3.0 + dyadic(n, 31, 31, False))
    if kind == "string":
        b = sbytes(n, 3)
        f.put(16, 3, "string length")
        f.raw(b, "string")
        return VariableString(b)
    if kind == "vec2":
        x = put_number(f, n + ".x", "first component")
        y = put_number(f, n + ".y", "second component")
        return VariableVec2((x, y))
    if kind == "struct":
        b = flag(n)
        f.put(4, TAGS["bool"], "tag of the member")
        f.name("in_ner", "member name")
        f.put(1, b, "member")
        f.put(4, 0, "end of struct")
        return VariableStruct({"in_ner": VariableBool(b)})
    if kind == "empty":
        f.put(4, 0, "end of struct")
        return VariableStruct({})
    f.put(4, TAGS["int"], "element tag")
    f.put(16, 2, "element count")
    a, b = s(n + ".a", 32), s(n + ".b", 32)
    f.put(32, a, "first element")
    f.put(32, b, "second element")
    return VariableArray(VariableInt, [VariableInt(a), VariableInt(b)])


KINDS = ["bool", "int", "uint", "float", "negative", "string", "vec2", "struct", "empty", "array"]


def tag(kind):
    return TAGS[{"negative": "float", "empty": "struct"}.get(kind, kind)]


def members(kinds, f):
    out = {}
    for i, k in enumerate(kinds):
        key = "ab"[: i + 1] + "Z{"[i % 2]
        f.put(4, tag(k), "type tag of " + k)
        f.name(key, "name of member " + str(i))
        out[key] = sample(k, f, "m" + str(i))
    f.put(4, 0, "end of variables")
    return out


@cases(kind=KINDS, before=["bool", "int"], header=[b"DF_STA", b"DF_CFG", b""])
def case_var_file(kind, before, header):
    body = Layout()
    variables = members([before, kind, "bool"], body)
    want = var_file(header, body, (len(header) * 8 + 48 + body.n + 7) // 8)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_var_file(header, variables)
    w.close()
    data = buf.getvalue()
    require(want.check(data, "variable file") == len(data), "variable file: no more than the format has", len(data))
    back = DFReader(io.BytesIO(want.build())).read_var_file(header)
    require(list(back) == list(variables), "variable file: names read from the format")
    for k in variables:
        require(back[k] == variables[k], "variable file: value read from the format", k)


@cases(code=list(range(64)), at=[0, 1])
def case_characters(code, at):
    """each of the 64 characters has its own code, both ways"""
    text = "0" * at + CHARS[code]
    f = Layout()
    f.name(text, "name")
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_6bit_str(text)
    w.close()
    f.check(buf.getvalue(), "6-bit name")
    require(DFReader(io.BytesIO(f.build())).read_6bit_str() == text, "6-bit name: character of a code", text)


@cases(elem=["bool", "uint", "float", "string", "vec2", "struct"], count=[0, 1, 2])
def case_array(elem, count):
    types = {"bool": VariableBool, "uint": VariableUInt, "float": VariableFloat, "string": VariableString, "vec2": VariableVec2, "struct": VariableStruct}
    f = Layout()
    f.put(4, TAGS["array"], "array tag")
    f.name("q", "name")
    f.put(4, TAGS[elem], "element tag")
    f.put(16, count, "element count")
    vals = [sample(elem, f, "e" + str(i)) for i in range(count)]
    f.put(4, 0, "end of variables")
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_variable(VariableStruct({"q": VariableArray(types[elem], vals)}))
    w.close()
    f.check(buf.getvalue(), "array")
    back = DFReader(io.BytesIO(f.build())).read_variable_map()
    require(back == {"q": VariableArray(types[elem], vals)}, "array read from the format")


def plain_regions(data):
    """[(x, y, segments, backdrop, contents)] of a written level, by the region directory of a level without variables"""
    count = le(data, 12, 4)
    shot = le(data, 44, 4)
    at = 48 + shot
    bits = 4 + 32 * count
    at += (bits + 7) // 8
    out = []
    for _ in range(count):
        size = le(data, at, 4)
        require(le(data, at + 12, 2) == 14, "region version", le(data, at + 12, 2))
        out.append((le(data, at + 8, 2), le(data, at + 10, 2), le(data, at + 14, 2), data[at + 16], zlib.decompress(data[at + 17 : at + size])))
        at += size
    return out


def one_segment(level, want, where, backdrop=False):
    level.variables = {}
    got = plain_regions(write_level(level))
    require(len(got) == 1, where + ": one region", len(got))
    x, y, segs, back, content = got[0]
    require(segs == (0 if backdrop else 1) and back == (1 if backdrop else 0), where + ": segment and backdrop counts", segs, back)
    require(want.check(content, where) == len(content), where + ": no more than the format has", len(content), want.n // 8)
    file = level_file(EMPTY, [region_file(x, y, want.build(), segs, back)])
    return DFReader(io.BytesIO(file.build() + region_file(x, y, want.build(), segs, back))).read_level()


EMPTY = Layout()
EMPTY.put(4, 0, "end of variables")

SPOTS = [(3, 5, 0, 0), (35, 20, 2, 1), (255, 16, 15, 1)]


@cases(shape=list(TileShape), spot=SPOTS, layer=[0, 10, 19, 20])
def case_tile(shape, spot, layer):
    x, y, sx, sy = spot
    level = Level()
    tile = any_tile("t", shape, TileSpriteSet(shape % 8))
    level.tiles[(layer, x, y)] = tile
    if layer == 19:
        for e in tile.edge_data:
            e.solid = False  # keeps the surface total at zero
        tile.sprite_set = TileSpriteSet.NEXUS
    f = Layout()
    f.put(8, 1, "layer count")
    f.put(8, layer, "layer")
    f.put(10, 1, "tile count")
    f.put(5, x % 16, "tile x")
    f.put(5, y % 16, "tile y")
    f.put(5, shape, "tile shape")
    f.put(3, tile.tile_flags, "tile flags")
    tile_bytes(f, tile, "tile")
    back = one_segment(level, segment(sx, sy, 1, f), "tile segment")
    got = back.tiles.get((layer, x, y))
    require(got is not None, "tile segment: tile found where the format puts it", list(back.tiles))
    if got is not None:
        require(got == tile, "tile segment: tile read from the format")


@cases(sset=[1, 2, 3, 4, 5, 6, 7], side=[0, 1, 2, 3], spike=[False, True])
def case_dust(sset, side, spike):
    level = Level()
    tile = any_tile("t", TileShape.FULL, TileSpriteSet.NEXUS)
    for i, e in enumerate(tile.edge_data):
        e.solid = False
        e.filth_caps = (flag("c0" + str(i)), flag("c1" + str(i)))
        e.filth_angles = (s("a0" + str(i), 8), s("a1" + str(i), 8))
    tile.edge_data[side].filth_sprite_set = TileSpriteSet(sset)
    tile.edge_data[side].filth_spike = spike
    tile.edge_data[3 - side].filth_sprite_set = TileSpriteSet(8 - sset)
    level.tiles[(19, 7, 9)] = tile
    f = Layout()
    f.put(8, 1, "layer count")
    f.put(8, 19, "layer")
    f.put(10, 1, "tile count")
    f.put(5, 7, "tile x")
    f.put(5, 9, "tile y")
    f.put(5, 0, "tile shape")
    f.put(3, tile.tile_flags, "tile flags")
    tile_bytes(f, tile, "tile")
    f.put(10, 1, "dust count")
    f.put(5, 7, "dust x")
    f.put(5, 9, "dust y")
    dust_bytes(f, tile, "dust")
    back = one_segment(level, segment(0, 0, 3, f, dust=1 if spike else 2), "dust segment")
    require(back.tiles[(19, 7, 9)] == tile, "dust segment: filth read from the format")


@cases(n=[2, 3], layers=[(6, 6), (0, 20), (19, 18)])
def case_tile_order(n, layers):
    """layers ascending, tiles row by row"""
    level = Level()
    a, b = layers
    spots = [(4, 1), (2, 3), (3, 1)][:n]
    f = Layout()
    if a == b:
        f.put(8, 1, "layer count")
        f.put(8, a, "layer")
        f.put(10, n, "tile count")
        for x, y in sorted(spots, key=lambda p: (p[1], p[0])):
            f.put(5, x, "tile x")
            f.put(5, y, "tile y")
            tile_fields(f)
        for x, y in spots:
            level.tiles[(a, x, y)] = Tile(sprite_set=TileSpriteSet.NEXUS)
    else:
        f.put(8, 2, "layer count")
        for layer in sorted(layers):
            f.put(8, layer, "layer")
            f.put(10, 1, "tile count")
            f.put(5, 4, "tile x")
            f.put(5, 1, "tile y")
            tile_fields(f)
        for layer in layers:
            level.tiles[(layer, 4, 1)] = Tile(sprite_set=TileSpriteSet.NEXUS)
    one_segment(level, segment(0, 0, 1, f), "tile order")


def tile_fields(f):
    f.put(5, 0, "tile shape")
    f.put(3, 4, "tile flags")
    tile_bytes(f, Tile(sprite_set=TileSpriteSet.NEXUS), "tile")


@cases(pos=[(5, 9), (-5, 9), (-700, -30), (0, 0)], lg=[(1.0, 32), (50.0**0.5, 44), (0.02, 8), (50.0 ** (5 / 24.0), 37)], backdrop=[False, True])
def case_prop(pos, lg, backdrop):
    x, y = pos
    scale, code = lg
    level = Level()
    prop = some_prop("p", scale)
    part = level.backdrop if backdrop else level
    ident = u("id", 31, 1, 2**30)
    part.add_prop(u("layer", 8), x, y, prop, ident)
    tx, ty = int(x / 48), int(y / 48)
    f = Layout()
    f.put(16, 1, "prop count")
    f.put(32, ident, "prop id")
    f.put(8, u("layer", 8), "prop layer")
    f.put(8, prop.layer_sub, "prop sublayer")
    f.put(1, x < 0, "sign of x")
    f.put(27, abs(x), "x")
    f.put(4, (code // 7) ^ 4, "high part of the scale")
    f.put(1, y < 0, "sign of y")
    f.put(27, abs(y), "y")
    f.put(4, (code % 7) ^ 4, "low part of the scale")
    f.put(16, prop.rotation, "rotation")
    f.put(1, prop.flip_x, "x flip")
    f.put(1, prop.flip_y, "y flip")
    f.put(8, prop.prop_set, "prop set")
    f.put(12, prop.prop_group, "prop group")
    f.put(12, prop.prop_index, "prop index")
    f.put(8, prop.palette, "palette")
    want = segment(0, 0, 8, f) if backdrop else segment(tx // 16 & 15, ty // 16 & 15, 8, f)
    back = one_segment(level, want, "prop segment", backdrop)
    part = back.backdrop if backdrop else back
    require(len(part.props) == 1, "prop segment: prop read from the format")
    for i, (layer, gx, gy, got) in part.props.items():
        require(i == ident and layer == u("layer", 8), "prop segment: id and layer read from the format")
        require(gx == x and gy == y, "prop segment: position read from the format", gx, gy)
        for k in ("layer_sub", "rotation", "flip_x", "flip_y", "prop_set", "prop_group", "prop_index", "palette"):
            require(getattr(got, k) == getattr(prop, k), "prop segment: " + k + " read from the format")
        require(abs(got.scale - scale) < 1e-9 * scale, "prop segment: scale read from the format", got.scale)


@cases(etype=["AI_controller", "enemy_bear", "z_button", "entity", "my_own"], second=["", "z_second", "flag_a"], kind=["", "bool", "float", "string"])
def case_entity(etype, second, kind):
    level = Level()
    f = Layout()
    names = Layout()
    types = [etype] + ([second] if second else [])
    f.put(16, len(types), "entity count")
    for i, t in enumerate(types):
        n = str(i)
        e = EnemyBear() if t == "enemy_bear" else Entity()
        e.etype = t
        e.rotation = u("rot" + n, 16)
        e.layer = u("layer" + n, 8)
        e.flip_x, e.flip_y, e.visible = flag("fx" + n), flag("fy" + n), flag("vis" + n)
        f.put(32, 200 + i, "entity id")
        if t.startswith("z_") or t == "entity":
            f.name("entity", "entity type")
            names.name(t, "extended entity type")
        else:
            f.name(t, "entity type")
        raw = u("x" + n, 15)
        f.fixed(32, 8, 0, raw >> 7, raw & 0x7F, "entity x")
        f.fixed(32, 8, 0, 2, 64, "entity y")
        f.put(16, e.rotation, "entity rotation")
        f.put(8, e.layer, "entity layer")
        f.put(1, not e.flip_x, "x facing")
        f.put(1, not e.flip_y, "y facing")
        f.put(1, e.visible, "visible")
        if kind:
            f.put(4, tag(kind), "type tag of " + kind)
            f.name("k", "name")
            e.variables["k"] = sample(kind, f, "v" + n)
        f.put(4, 0, "end of variables")
        level.add_entity(dyadic("x" + n, 15, 7, False), 2.5, e, 200 + i)
    finish_entities(level, f, names, types, 9 if etype == "enemy_bear" else 0)


NEAR = ["entity_emitter", "entity_cleansed", "entity1", "Entity", "entit", "z", "zz_top", "z_", "a_z_b", "Z_up", "hittable_apple"]
OTHER = """
AI_controller ambience_trigger base_trigger camera_node check_point custom_score_book dust_girl dust_kid
dust_man dust_worth dust_wraith enemy_bear enemy_book enemy_butler enemy_chest_scrolls enemy_chest_treasure
enemy_critter enemy_door enemy_flag enemy_gargoyle_big enemy_gargoyle_small enemy_hawk enemy_key enemy_knight
enemy_maid enemy_porcupine enemy_scrolls enemy_slime_ball enemy_slime_barrel enemy_slime_beast
enemy_spring_ball enemy_stoneboss enemy_stonebro enemy_trash_ball enemy_trash_beast enemy_trash_can
enemy_trash_tire enemy_treasure enemy_tutorial_hexagon enemy_tutorial_square enemy_wolf fog_trigger giga_gate
kill_box leaf_sprite level_door level_end level_end_prox music_trigger score_book slime_boss special_trigger
text_trigger trash_king z_string_list
""".split()


@cases(etype=NEAR + OTHER)
def case_entity_type(etype):
    """only the generic name and the z_ names are stored out of line"""
    level = Level()
    f = Layout()
    names = Layout()
    f.put(16, 1, "entity count")
    e = Entity()
    e.etype = etype
    e.rotation = u("rot0", 16)
    e.layer = u("layer0", 8)
    e.flip_x, e.flip_y, e.visible = flag("fx0"), flag("fy0"), flag("vis0")
    f.put(32, 200, "entity id")
    if etype.startswith("z_"):
        f.name("entity", "entity type")
        names.name(etype, "extended entity type")
    else:
        f.name(etype, "entity type")
    raw = u("x0", 15)
    f.fixed(32, 8, 0, raw >> 7, raw & 0x7F, "entity x")
    f.fixed(32, 8, 0, 2, 64, "entity y")
    f.put(16, e.rotation, "entity rotation")
    f.put(8, e.layer, "entity layer")
    f.put(1, not e.flip_x, "x facing")
    f.put(1, not e.flip_y, "y facing")
    f.put(1, e.visible, "visible")
    f.put(4, 0, "end of variables")
    level.add_entity(dyadic("x0", 15, 7, False), 2.5, e, 200)
    finish_entities(level, f, names, [etype], 0)


def finish_entities(level, f, names, types, filth):
    start = f.n
    names.pad()
    f.join(names)
    # the extended names are followed by the distance back to their start, in bits, at the end of the segment
    pad = -f.n % 8
    f.n += pad
    f.put(32, f.n - start, "distance to the extended names")
    back = one_segment(level, segment(0, 0, 4, f, enemies=filth), "entity segment")
    for i, t in enumerate(types):
        n = str(i)
        got = back.entities.get(200 + i)
        require(got is not None, "entity segment: entity read from the format", i)
        if got is None:
            continue
        x, y, e = got
        require(e.etype == t, "entity segment: type read from the format", e.etype)
        require(x == dyadic("x" + n, 15, 7, False) and y == 2.5, "entity segment: position read from the format", x, y)
        require(e.rotation == u("rot" + n, 16) and e.layer == u("layer" + n, 8), "entity segment: rotation and layer read from the format")
        require(e.flip_x == flag("fx" + n) and e.flip_y == flag("fy" + n) and e.visible == flag("vis" + n), "entity segment: flags read from the format")


@cases(shot=[0, 1, 5], kinds=[(), ("bool",), ("int", "string"), ("uint", "vec2")], regions=[0, 1, 2])
def case_level(shot, kinds, regions):
    """the file frame around the regions"""
    level = Level()
    body = Layout()
    level.variables = members(kinds, body)
    level.sshot = sbytes("shot", shot)
    for i in range(regions):
        level.tiles[(3, 300 * i, 1)] = Tile(sprite_tile=u("t", 8))
    ident = 150
    level.add_prop(1, 2.0, 3.0, some_prop("p"), ident)
    data = write_level(level)
    # the lengths of the packed regions come from the file itself (C11 checks them); everything else is described here
    head = level_file(body, [b""] * max(regions, 1), level.sshot, total=len(data), uid=ident + 1)
    at = head.n // 8
    offsets = []
    pos = at
    for i in range(max(regions, 1)):
        offsets.append(pos - at)
        size = le(data, pos, 4)
        require(le(data, pos + 8, 2) == i and le(data, pos + 10, 2) == 0, "region coordinates", i)
        pos += size
    require(pos == len(data), "regions end the file")
    fields = []
    n = 0
    for p, w, v, what in head.fields:
        if what == "region offset":
            v = offsets[n]
            n += 1
        fields.append((p, w, v, what))
    head.fields = fields
    head.check(data, "level file")


@cases(x=[0, 255, 256, 511, -1, -256, -257, 5000], y=[0, -1, 256, -300])
def case_coordinates(x, y):
    """regions of 256 tiles, segments of 16, tiles by their low bits, also on the negative side"""
    level = Level()
    level.tiles[(5, x, y)] = Tile(TileShape.BIG_3, sprite_set=TileSpriteSet.NEXUS)
    level.variables = {}
    got = plain_regions(write_level(level))
    require(len(got) == 1, "one region")
    rx, ry, segs, back, content = got[0]
    require(rx == (x // 256) & 0xFFFF and ry == (y // 256) & 0xFFFF, "region coordinates", rx, ry)
    f = Layout()
    f.put(8, 1, "layer count")
    f.put(8, 5, "layer")
    f.put(10, 1, "tile count")
    f.put(5, x % 16, "tile x")
    f.put(5, y % 16, "tile y")
    require(content[6] == x % 256 // 16 and content[7] == y % 256 // 16, "segment coordinates", content[6], content[7])
    want = Layout()
    want.put(200, 0, "segment header")
    want.fields = []
    want.join(f)
    want.check(content, "tile place")


@cases(x=[0, 15, 16, -1, -16, -17], y=[0, -1, 31])
def case_backdrop_coordinates(x, y):
    """a backdrop tile is as large as a segment"""
    level = Level()
    level.backdrop.tiles[(5, x, y)] = Tile(TileShape.BIG_3, sprite_set=TileSpriteSet.NEXUS)
    level.variables = {}
    got = plain_regions(write_level(level))
    require(len(got) == 1, "one region")
    rx, ry, segs, back, content = got[0]
    require(segs == 0 and back == 1, "one backdrop segment")
    require(rx == (x // 16) & 0xFFFF and ry == (y // 16) & 0xFFFF, "region coordinates", rx, ry)
    require(content[6] == 0 and content[7] == 0, "backdrop segment coordinates")
    want = Layout()
    want.put(200, 0, "segment header")
    want.fields = []
    want.put(8, 1, "layer count")
    want.put(8, 5, "layer")
    want.put(10, 1, "tile count")
    want.put(5, x % 16, "tile x")
    want.put(5, y % 16, "tile y")
    want.check(content, "backdrop tile place")


# streams in file order: width, value of the neutral input, first version that has it
STREAMS = [(2, 1, 1), (2, 1, 1), (2, 0, 1), (2, 0, 1), (2, 0, 1), (4, 0, 1), (4, 0, 1), (4, 0, 3), (16, 0, 4), (16, 0, 4), (8, 0, 4)]


def stream_value(i, raw):
    if i < 2:
        return raw - 1
    if i in (8, 9):
        return raw / 32767.0
    if i == 10:
        return MouseState(raw)
    return raw


RAWS = [2, 0, 1, 2, 1, 11, 10, 2, 32767, 16384, 20]


@cases(version=[1, 3, 4], stream=list(range(11)), runs=[(), (1,), (3, 2), (255,), (256, 1), (600,)])
def case_replay_stream(version, stream, runs):
    """one input stream, coded as runs: the first count is for the neutral value and every later one is one too small"""
    width, neutral, since = STREAMS[stream]
    if since > version:
        return
    values = []
    coded = [(1, neutral)]
    for i, n in enumerate(runs):
        raw = RAWS[stream] if i % 2 == 0 else neutral
        values += [stream_value(stream, raw)] * n
        coded.append((n, raw))
    if len(coded) > 1 and coded[-1][1] == neutral:
        coded.pop()
    rep = Replay(version=version, username=sbytes("user", 2), level=sbytes("lev", 3), frames=u("frames", 32))
    rep.players = [PlayerData(character=Character(5))]
    rep.players[0].intents[IntentStream(stream)] = values
    f = Layout()
    total = []
    for k in range(11):
        w, neu, first = STREAMS[k]
        if first > version:
            continue
        g = Layout()
        for j, (n, raw) in enumerate(coded if k == stream else [(1, neu)]):
            while n > 0:
                if j > 0 or g.n > 0:
                    g.put(w, raw, "value of stream " + str(k))
                g.put(8, min(n, 255) - 1, "run of stream " + str(k))
                n -= 255
        g.put(w, neu, "closing value of stream " + str(k))
        g.put(8, 255, "end of stream " + str(k))
        g.pad()
        f.put(32, g.n // 8, "size of stream " + str(k))
        f.join(g)
    inner = Layout()
    inner.put(32, f.n // 8, "size of the inputs")
    inner.join(f)
    inner.put(32, 0, "entities")
    check_replay(rep, inner, version, "replay stream")


def check_replay(rep, inner, version, where):
    f = Layout()
    if rep.username:
        f.raw(b"DF_RPL2", "user name mark")
        f.put(16, len(rep.username), "user name length")
        f.raw(rep.username, "user name")
    f.raw(b"DF_RPL", "mark")
    f.put(8, 48 + version, "version digit")
    f.put(16, len(rep.players), "player count")
    f.put(32, inner.n // 8, "uncompressed size")
    f.put(32, rep.frames, "frame count")
    for p in rep.players:
        f.put(8, p.character, "character")
    f.put(8, len(rep.level), "level name length")
    f.raw(rep.level, "level name")
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep)
    w.close()
    data = buf.getvalue()
    at = f.check(data, where)
    content = zlib.decompress(data[at:])
    require(inner.check(content, where) == len(content), where + ": no more than the format has", len(content), inner.n // 8)
    back = DFReader(io.BytesIO(f.build() + zlib.compress(inner.build()))).read_replay()
    require(back.frames == rep.frames and bytes(back.level) == rep.level and bytes(back.username) == rep.username, where + ": header read from the format")
    require([p.character for p in back.players] == [p.character for p in rep.players], where + ": characters read from the format")
    for p, q in zip(rep.players, back.players):
        for k, vals in p.intents.items():
            got = q.intents.get(k)
            require(got is not None and len(got) <= len(vals), where + ": inputs read from the format")
            for i, v in enumerate(vals):
                require(q.get_intent_value(k, i) == v, where + ": input read from the format", i)
    require(list(back.entities) == list(rep.entities), where + ": entities read from the format")
    for k, e in rep.entities.items():
        got = back.entities[k]
        require(len(got.frames) == len(e.frames), where + ": desync frames read from the format")
        for a, b in zip(e.frames, got.frames):
            for name in ("frame", "x_pos", "y_pos", "x_speed", "y_speed"):
                require(getattr(a, name) == getattr(b, name), where + ": desync " + name + " read from the format")


@cases(version=[1, 3, 4], players=[1, 2, 4], ents=[(), (1,), (2, 0, 1)], user=[0, 3])
def case_replay_frame(version, players, ents, user):
    """the frame around the inputs and the desync data behind them"""
    if version == 1 and players > 1:
        return
    rep = Replay(version=version, username=sbytes("user", user), level=sbytes("lev", 2), frames=u("frames", 32))
    rep.players = [PlayerData(character=Character(7 - i)) for i in range(players)]
    f = Layout()
    for _ in range(players):
        for k in range(11):
            w, neu, first = STREAMS[k]
            if first > version:
                continue
            g = Layout()
            g.put(8, 0, "run of stream " + str(k))
            g.put(w, neu, "closing value of stream " + str(k))
            g.put(8, 255, "end of stream " + str(k))
            g.pad()
            f.put(32, g.n // 8, "size of stream " + str(k))
            f.join(g)
    inner = Layout()
    inner.put(32, f.n // 8, "size of the inputs")
    inner.join(f)
    inner.put(32, len(ents), "entities")
    for i, n in enumerate(ents):
        uid = 1000 - i
        data = EntityData()
        inner.put(32, uid, "entity id")
        inner.put(32, i, "entity number")
        inner.put(32, n, "desync frame count")
        for j in range(n):
            p = str(i) + "." + str(j)
            vals = [u(p + "f", 32), s(p + "x", 32), s(p + "y", 32), s(p + "sx", 32), s(p + "sy", 32)]
            for k, v in enumerate(vals):
                inner.put(32, v, "desync field " + str(k))
            data.frames.append(EntityFrame(vals[0], vals[1] / 10.0, vals[2] / 10.0, vals[3] / 100.0, vals[4] / 100.0))
        rep.entities[uid] = data
    check_replay(rep, inner, version, "replay frame")
