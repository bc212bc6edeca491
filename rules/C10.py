"""C10: level metadata and opaque region data survive rewriting."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)
from rules.common import load, save, some_prop

RULE = (
    "Abstract level variables, screenshot contents and id floors are traced through write_level / read_level with and "
    "without metadata_only and through read_level_ex / write_level_ex for levels with no, one and several regions; "
    "region bytes (opaque to the analysis) and directory must come out identical after rewriting with variables or "
    "screenshot of another size, and region data of another total size must be refused."
)


def variables(kind):
    if kind == "none":
        return {}
    if kind == "scalars":
        return {
            "level_name": VariableString(sbytes("name", 4)),
            "vector_character": VariableBool(flag("vc")),
            "p1_x": VariableInt(s("p1x", 32)),
            "cp_count": VariableUInt(u("cp", 32)),
            "f": VariableFloat(dyadic("vf", 20, 6, True)),
        }
    if kind == "odd":
        # leaves the variable section at another bit offset
        return {"a": VariableBool(flag("vb"))}
    if kind == "odd2":
        return {"abc": VariableBool(flag("vb")), "d": VariableBool(flag("vd"))}
    return {
        "zz": VariableStruct({"k": VariableArray(VariableString, [VariableString(sbytes("k", 2)), VariableString(b"")])}),
        "v": VariableVec2((dyadic("vx", 16, 4, True), -1.25)),
        "e": VariableArray(VariableInt, []),
    }


KINDS = ["none", "scalars", "odd", "odd2", "nested"]


def content(level, kind):
    if kind in ("one", "two", "many"):
        level.tiles[(19, 1, 2)] = Tile(TileShape.FULL, sprite_tile=u("ct", 8))
        level.add_prop(4, 5.0, 6.0, some_prop("p"), 333)
    if kind in ("two", "many"):
        level.add_entity(20000.0, 50.0, Entity(), 334)
    if kind == "many":
        level.tiles[(7, -300, 300)] = Tile(TileShape.HALF_A)
        level.tiles[(7, -300, -300)] = Tile(TileShape.HALF_B)
        level.backdrop.tiles[(3, 99, 5)] = Tile(TileShape.HALF_C)
    if kind == "backdrop":
        level.backdrop.tiles[(3, 1, 1)] = Tile(TileShape.HALF_C)


CONTENTS = ["empty", "one", "two", "many", "backdrop"]


@cases(kind=KINDS, what=CONTENTS, shot=[0, 1, 5])
def case_read_back(kind, what, shot):
    level = Level()
    level.variables = variables(kind)
    level.sshot = sbytes("shot", shot)
    content(level, what)
    keep = clone(level.variables)
    data = save(level)
    back = load(data)
    require_same(back.variables, keep, "level variables", order=True)
    require_same(back.sshot, sbytes("shot", shot), "screenshot")
    meta = DFReader(io.BytesIO(data)).read_level(metadata_only=True)
    require_same(meta.variables, keep, "variables with metadata_only", order=True)
    require_same(meta.sshot, sbytes("shot", shot), "screenshot with metadata_only")
    require(len(back.tiles) == len(level.tiles), "tiles read")


@cases(n=[1000, 65535, 70000, 1 << 24])
def case_big_screenshot(n):
    level = Level()
    level.sshot = opaque("shot", n)
    content(level, "one")
    data = save(level)
    back = load(data)
    require_same(back.sshot, opaque("shot", n), "screenshot")
    require(len(back.props) == 1 and len(back.tiles) == 1, "content behind the screenshot")


@cases(what=CONTENTS, bits=[17, 24, 30])
def case_id_floor(what, bits):
    """ids allocated after reading are not below those the level would have allocated"""
    level = Level()
    content(level, what)
    top = u("top", bits) | (1 << bits)
    e = Entity()
    level.add_entity(1.0, 2.0, e, 100000)
    gone = level.add_prop(1, 5.0, 5.0, some_prop("q"), top)
    level.props.pop(gone)
    data = save(level)
    for back in (load(data), DFReader(io.BytesIO(data)).read_level(metadata_only=True)):
        first = back.add_prop(1, 0.0, 0.0, some_prop("r"))
        require(first >= top + 1, "id after reading is above every id given before writing", first)
        second = back.backdrop.add_prop(1, 0.0, 0.0, some_prop("r"))
        require(second > first, "next id is another one", second)
    own = level.add_prop(1, 0.0, 0.0, some_prop("r"))
    require(first == own, "the allocator continues where the written level's does", own, first)


def ex(data, off=0):
    r = DFReader(io.BytesIO(data))
    if off:
        r.bit_seek(off * 8)
    level, offsets = r.read_level_ex()
    require(r.aligned(), "reader aligned after the metadata")
    region = r.read_bytes(offsets[-1])
    return level, offsets, region


@cases(k1=KINDS, k2=KINDS, what=CONTENTS, shot=[0, 7])
def case_rewrite(k1, k2, what, shot):
    level = Level()
    level.variables = variables(k1)
    level.sshot = sbytes("shot", 3)
    content(level, what)
    data = save(level)
    meta, offsets, region = ex(data)
    require_same(meta.variables, variables(k1), "variables", order=True)
    require(len(region) == offsets[-1], "all region data is available", len(region), offsets)
    meta.variables = variables(k2)
    meta.sshot = sbytes("other", shot)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(meta, offsets, region)
    w.close()
    meta2, offsets2, region2 = ex(buf.getvalue())
    require_same(meta2.variables, variables(k2), "new variables", order=True)
    require_same(meta2.sshot, sbytes("other", shot), "new screenshot")
    require_same(offsets2, offsets, "region directory")
    require_same(region2, region, "region data")
    full = load(buf.getvalue())
    require_same(full.variables, variables(k2), "new variables in the full level", order=True)
    ref = load(data)
    require_same(full.tiles, ref.tiles, "tiles")
    require_same(full.props, ref.props, "props")
    require_same(full.entities, ref.entities, "entities")
    require_same(full.backdrop.tiles, ref.backdrop.tiles, "backdrop tiles")


@cases(offs=[[0, 0, 0], [5, 2, 9], [0, 4, 4, 10], [7, 7], [0, 1, 2, 3, 4, 5, 5], "any", "any2"], kind=["none", "odd"], pieces=[False, True])
def case_opaque_directory(offs, kind, pieces):
    """directory and region data are carried along as they are, whatever they hold"""
    level = Level()
    level.variables = variables(kind) if kind in KINDS else {}
    if isinstance(offs, str):
        offs = [u("o0", 32), 0, u("o1", 32), 6] if offs == "any" else [u("o0", 32), 1]
    raw = sbytes("raw", offs[-1])
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(level, list(offs), [raw[:1], raw[1:]] if pieces else raw)
    w.close()
    data = buf.getvalue()
    meta, offsets, region = ex(data)
    require_same(offsets, list(offs), "region directory")
    require_same(region, raw, "region data")
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(meta, offsets, region)
    w.close()
    require_same(buf.getvalue(), data, "file")


@cases(k1=KINDS, what=["empty", "one", "many"])
def case_rewrite_unchanged(k1, what):
    """rewriting without a change reproduces the file"""
    level = Level()
    level.variables = variables(k1)
    level.sshot = sbytes("shot", 3)
    content(level, what)
    data = save(level)
    meta, offsets, region = ex(data)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(meta, offsets, region)
    w.close()
    require_same(buf.getvalue(), data, "file")


@cases(parts=[1, 2, 3], cls=["list", "tuple", "generator"])
def case_rewrite_parts(parts, cls):
    """region data given in pieces"""
    level = Level()
    content(level, "many")
    data = save(level)
    meta, offsets, region = ex(data)
    cut = offsets[1]
    pieces = [region[:cut], region[cut:]]
    if parts == 1:
        pieces = [region]
    elif parts == 3:
        pieces = [region[:cut], b"", region[cut:]]
    if cls == "tuple":
        pieces = tuple(pieces)
    elif cls == "generator":
        pieces = (x for x in pieces)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(meta, offsets, pieces)
    w.close()
    require_same(buf.getvalue(), data, "file")


@cases(what=["empty", "one", "many"], delta=[-1, 1, 8, 100], pieces=[False, True])
def case_wrong_size(what, delta, pieces):
    level = Level()
    content(level, what)
    meta, offsets, region = ex(save(level))
    if delta < 0:
        if len(region) == 0:
            return
        region = region[:delta]
    else:
        region = region + bytes(delta)
    w = DFWriter(io.BytesIO(), noclose=True)
    refused = False
    try:
        w.write_level_ex(meta, offsets, [region] if pieces else region)
    except Exception:
        refused = True
    require(refused, "region data of the wrong total size is refused")


@cases(kind=["none", "odd", "scalars"], pre=[0, 1, 6])
def case_omit(kind, pre):
    """[0] as directory writes a level without regions; levels may follow other data"""
    level = Level()
    level.variables = variables(kind)
    level.sshot = sbytes("shot", 3)
    content(level, "many")
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_bytes(sbytes("pre", pre))
    w.write_level_ex(level, [0], b"")
    w.close()
    meta, offsets, region = ex(buf.getvalue(), pre)
    require(offsets == [0], "no regions", offsets)
    require(region == b"", "no region data")
    require_same(meta.variables, variables(kind), "variables", order=True)
    require_same(meta.sshot, sbytes("shot", 3), "screenshot")
    require_same(buf.getvalue()[:pre], sbytes("pre", pre), "data before the level")
    r = DFReader(io.BytesIO(buf.getvalue()))
    r.bit_seek(pre * 8)
    require(len(r.read_level().tiles) == 0, "no tiles")


@cases(what=CONTENTS, kind=["none", "odd", "scalars"], pre=[1, 6], post=[0, 5])
def case_embedded(what, kind, pre, post):
    """a level in the middle of other data is read and rewritten like one at the start"""
    level = Level()
    level.variables = variables(kind)
    level.sshot = sbytes("shot", 3)
    content(level, what)
    alone = save(level)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_bytes(sbytes("pre", pre))
    w.write_level(level)
    w.write_bytes(sbytes("post", post))
    w.close()
    data = buf.getvalue()
    require_same(data, sbytes("pre", pre) + alone + sbytes("post", post), "the same bytes at any place of a stream")
    meta, offsets, region = ex(data, pre)
    meta1, offsets1, region1 = ex(alone)
    require_same(offsets, offsets1, "region directory")
    require_same(region, region1, "region data")
    require_same(meta.variables, variables(kind), "variables", order=True)
    require_same(meta.sshot, sbytes("shot", 3), "screenshot")
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_bytes(sbytes("pre", pre))
    w.write_level_ex(meta, offsets, region)
    w.close()
    require_same(buf.getvalue(), sbytes("pre", pre) + alone, "rewritten level")
    r = DFReader(io.BytesIO(data))
    r.bit_seek(pre * 8)
    back = r.read_level()
    require(sorted(back.tiles) == sorted(level.tiles) and list(back.props) == list(level.props) and list(back.entities) == list(level.entities), "contents")
    require_same(r.read_bytes(post), sbytes("post", post), "data after the level")


@cases(n=[17, 257, 300], kind=["odd", "scalars"])
def case_many_regions(n, kind):
    """a long region directory"""
    level = Level()
    level.variables = variables(kind)
    level.sshot = sbytes("shot", 3)
    for i in range(n):
        level.tiles[(19, 256 * (i % 20) - 700, 256 * (i // 20) + 3)] = Tile(TileShape.FULL, sprite_tile=i % 256)
    data = save(level)
    meta, offsets, region = ex(data)
    require(len(offsets) == n + 1, "one directory entry for each region and the end", len(offsets))
    require_same(meta.variables, variables(kind), "variables", order=True)
    meta.variables = variables("odd2")
    meta.sshot = sbytes("other", 6)
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(meta, offsets, region)
    w.close()
    meta2, offsets2, region2 = ex(buf.getvalue())
    require_same(offsets2, offsets, "region directory")
    require_same(region2, region, "region data")
    back = load(buf.getvalue())
    require_same(back.variables, variables("odd2"), "new variables", order=True)
    require(len(back.tiles) == n and sorted(back.tiles) == sorted(level.tiles), "tiles of all regions")


@cases(n=[30, 257, 300])
def case_many_variables(n):
    level = Level()
    level.variables = {"v" + str(i): [VariableUInt(i * 7919), VariableBool(flag("b")), VariableString(b"x" * (i % 30)), VariableInt(-i), VariableVec2((i / 4, -1.5))][i % 5] for i in range(n)}
    content(level, "one")
    keep = clone(level.variables)
    data = save(level)
    require_same(load(data).variables, keep, "level variables", order=True)
    require_same(DFReader(io.BytesIO(data)).read_level(metadata_only=True).variables, keep, "variables with metadata_only", order=True)


@cases(kind=["scalars", "nested"], how=["changed", "in place", "removed", "all", "screenshot", "other level", "reader", "same"])
def case_edited(kind, how):
    """what is written is what the level holds then, whatever was written or read before"""
    level = Level()
    level.variables = variables(kind)
    level.sshot = sbytes("shot", 4)
    content(level, "many")
    first = save(level)
    load(first)
    DFReader(io.BytesIO(first)).read_level(metadata_only=True)
    ex(first)
    if how in ("reader", "same"):
        level = load(first)
    if how == "other level":
        level = Level()
        level.variables = variables("odd2")
        level.sshot = sbytes("other", 4)
        content(level, "one")
    elif how == "changed":
        level.variables["new"] = VariableInt(s("n", 32))
    elif how == "in place" or how == "reader":
        for v in level.variables.values():
            if isinstance(v, VariableString):
                v.value = sbytes("nn", 9)
            elif isinstance(v, VariableStruct):
                v.value["k"].value[1].append(VariableString(sbytes("nk", 3)))
    elif how == "removed":
        del level.variables[list(level.variables)[0]]
    elif how == "all":
        level.variables = {}
    elif how == "screenshot":
        level.sshot = sbytes("new", 9)
    keep, shot = clone(level.variables), level.sshot
    data = save(level)
    back = load(data)
    require_same(back.variables, keep, "level variables", order=True)
    require_same(back.sshot, shot, "screenshot")
    meta = DFReader(io.BytesIO(data)).read_level(metadata_only=True)
    require_same(meta.variables, keep, "variables with metadata_only", order=True)
    require_same(meta.sshot, shot, "screenshot with metadata_only")
    require(len(back.tiles) == len(level.tiles) and len(back.props) == len(level.props) and len(back.entities) == len(level.entities), "contents")
