"""C28: command line edits apply fully or leave the file as it was."""

import io
import json
import sys

from dustmaker.cmd.common import run_utility
from dustmaker.cmd.main import main
from dustmaker.cmd.thumbnail import Thumbnail
from dustmaker.cmd.variables import Variables, json_to_variables, variables_to_json
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
    VariableVec2,
)
from rules.common import some_prop
from rules.C27 import same

RULE = (
    "The tools are traced from their command line (argument parsing, file access and JSON text are modelled) on levels without, "
    "with one and with several regions holding abstract tiles, props and entities, with and without screenshot, and on the other "
    "variable files, with abstract variable values; the resulting file must hold the requested variables or screenshot and the "
    "region bytes, offsets, screenshot and remaining variables of the input. For every kind of invalid request (missing files, "
    "malformed or ill-typed JSON, values that cannot be encoded, unknown headers, truncated levels, no imaging library) the run "
    "must fail and the file content be the same as before."
)


def run(tool, *argv):
    """exit code of a tool run through the shared entry point and on its own; None: an exception"""
    sys.argv = ["prog", tool] + list(argv)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        code = main()
    except SystemExit as e:
        code = e.args[0] if e.args else 0
    except Exception as e:
        return type(e).__name__ + ": " + str(e)
    return 0 if code is None else code


def run_alone(cls, *argv):
    sys.argv = ["prog"] + list(argv)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        code = run_utility(cls)
    except SystemExit as e:
        code = e.args[0] if e.args else 0
    except Exception as e:
        return type(e).__name__ + ": " + str(e)
    return 0 if code is None else code


def go(alone, tool, *argv):
    if alone:
        return run_alone({"variables": Variables, "thumbnail": Thumbnail}[tool], *argv)
    return run(tool, *argv)


LEVELS = ["bare", "empty regions", "one", "many"]


def make_level(which, shot):
    level = Level()
    level.variables = {"level_name": VariableString(sbytes("nm", 4)), "p1_x": VariableInt(s("px", 32)), "flag": VariableBool(flag("fl"))}
    if shot:
        level.sshot = opaque("shot", 50)
    if which == "one" or which == "many":
        t = Tile(TileShape.FULL, sprite_set=TileSpriteSet.CITY, sprite_tile=u("st", 8), sprite_palette=u("sp", 4), tile_flags=u("tf", 3))
        level.tiles[(19, 3, 4)] = t
        e = Entity({"n": VariableUInt(u("ev", 32))}, rotation=u("er", 16))
        e.etype = "something"
        level.add_entity(10.0, 20.0, e, 150)
    if which == "many":
        level.tiles[(19, 3 - 40, 4 + 60)] = Tile(TileShape.BIG_1, sprite_set=TileSpriteSet.FOREST)
        level.add_prop(12, 900.0, -2000.0, some_prop("p"), 160)
        level.backdrop.tiles[(19, 1, 1)] = Tile(TileShape.HALF_A)
    return level


def level_bytes(which, shot):
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        if which == "bare":
            w.write_level_ex(make_level(which, shot), [0], b"")
        else:
            w.write_level(make_level(which, shot))
    return out.getvalue()


def split(data):
    """(level, offsets, region bytes, all else read fully)"""
    with DFReader(io.BytesIO(data)) as r:
        level, offsets = r.read_level_ex()
        start = r.bit_tell() // 8
        raw = r.read_bytes(offsets[-1])
    require(start + offsets[-1] == len(data), "the recorded size is the size of the file", len(data))
    return level, offsets, raw


def regions_kept(before, after):
    a, ao, ar = split(before)
    b, bo, br = split(after)
    require(ao[:-1] == bo[:-1] and len(ao) == len(bo), "region offsets are kept", ao, bo)
    require(ao[-1] == bo[-1], "size of the region data is kept", ao, bo)
    require_same(br, ar, "region data is kept byte for byte")
    return a, b


def variables_same(a, b, where):
    require(list(sorted(a)) == list(sorted(b)), where + ": names", list(a), list(b))
    for k in a:
        same(a[k], b[k], where + " " + k)


def new_vars():
    return VariableStruct(
        {
            "level_name": VariableString(sbytes("new", 3)),
            "count": VariableUInt(u("cnt", 32)),
            "x": VariableInt(s("x", 32)),
            "arr": VariableArray(VariableInt, [VariableInt(s("a0", 32)), VariableInt(s("a1", 32))]),
            "none": VariableArray(VariableBool),
            "st": VariableStruct({"t": VariableBool(flag("t")), "f": VariableFloat(1.5), "v": VariableVec2((0.5, -2.25))}),
        }
    )


def put_json(path, var):
    schema, data = variables_to_json(var)
    add_file(path, json.dumps({"vars": data, "schema": schema}))


ODD = [[0, 0, 0], [0, 4, 4, 10], [5, 2, 9], [3]]


@cases(offs=ODD, tool=["variables", "thumbnail"], alone=[False, True])
def case_odd_regions(offs, tool, alone):
    """region data is not looked at, so it may hold anything"""
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        w.write_level_ex(make_level("bare", True), offs, sbytes("raw", offs[-1]))
    data = out.getvalue()
    add_file("level", data)
    want = new_vars()
    put_json("new.json", want)
    add_file("image", sbytes("img", 4))
    code = go(alone, "variables", "level", "new.json") if tool == "variables" else go(alone, "thumbnail", "--update", "level", "image")
    require(code == 0, "a valid edit succeeds", code)
    before, after = regions_kept(data, get_file("level"))
    if tool == "variables":
        variables_same(want.value, after.variables, "new variables")
        require_same(after.sshot, before.sshot, "the screenshot is kept")
    else:
        require_same(after.sshot, sbytes("img", 4), "the screenshot")


@cases(which=LEVELS, shot=[False, True], alone=[False, True])
def case_update_level_variables(which, shot, alone):
    data = level_bytes(which, shot)
    add_file("level", data)
    want = new_vars()
    put_json("new.json", want)
    code = go(alone, "variables", "level", "new.json")
    require(code == 0, "a valid edit succeeds", code)
    out = get_file("level")
    before, after = regions_kept(data, out)
    variables_same(want.value, after.variables, "new variables")
    require_same(after.sshot, before.sshot, "the screenshot is kept")
    require_same(get_file("new.json"), get_file("new.json"), "the new data is only read")
    # the level reads back in full with everything it held before
    with DFReader(io.BytesIO(data)) as r:
        full_a = r.read_level()
    with DFReader(io.BytesIO(out)) as r:
        full_b = r.read_level()
    require(list(full_a.tiles) == list(full_b.tiles) and list(full_a.props) == list(full_b.props) and list(full_a.entities) == list(full_b.entities), "content of the level")
    require(full_b.add_entity(0.0, 0.0, Entity()) == full_a.add_entity(0.0, 0.0, Entity()), "the id allocator is kept")


HEADERS = ["DF_STA", "DF_CFG", "DF_FOG"]


@cases(header=HEADERS, alone=[False, True], scratch=[False, True])
def case_update_variable_file(header, alone, scratch):
    old = {"a": VariableInt(s("old", 32)), "b": VariableString(sbytes("ob", 2))}
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        w.write_var_file(header.encode(), old)
    want = new_vars()
    put_json("new.json", want)
    if scratch:
        code = go(alone, "variables", "file", "new.json", "--header", header)
    else:
        add_file("file", out.getvalue())
        code = go(alone, "variables", "file", "new.json")
    require(code == 0, "a valid edit succeeds", code)
    with DFReader(io.BytesIO(get_file("file"))) as r:
        back = r.read_var_file(header.encode())
        variables_same(want.value, back, "new variables")


@cases(kind=["level"] + HEADERS, alone=[False, True], indent=["0", "2", None])
def case_show_variables(kind, alone, indent):
    values = new_vars().value
    if kind == "level":
        level = make_level("one", True)
        level.variables = values
        out = io.BytesIO()
        with DFWriter(out, noclose=True) as w:
            w.write_level(level)
    else:
        out = io.BytesIO()
        with DFWriter(out, noclose=True) as w:
            w.write_var_file(kind.encode(), values)
    data = out.getvalue()
    add_file("file", data)
    if indent is None:
        code = go(alone, "variables", "file")
    else:
        code = go(alone, "variables", "file", "--indent", indent)
    require(code == 0, "showing variables succeeds", code)
    shown = json.loads(sys.stdout.getvalue())
    variables_same(values, json_to_variables(shown["schema"], shown["vars"]).value, "shown variables")
    require_same(get_file("file"), data, "showing variables changes nothing")
    # what is shown can be used as new data
    add_file("shown.json", json.dumps(shown))
    code = go(alone, "variables", "file", "shown.json")
    require(code == 0, "the output is a valid edit", code)
    with DFReader(io.BytesIO(get_file("file"))) as r:
        if kind == "level":
            back = r.read_level(metadata_only=True).variables
        else:
            back = r.read_var_file(kind.encode())
    variables_same(values, back, "variables shown and written back")


BAD_JSON = {
    "not json": "{ nope",
    "empty": "",
    "no schema": '{"vars": {}}',
    "no vars": '{"schema": {}}',
    "list": "[]",
    "number": "5",
    "top array": '{"vars": [1], "schema": ["int"]}',
    "top scalar": '{"vars": 1, "schema": "int"}',
    "top string": '{"vars": "abc", "schema": "string"}',
    "unknown kind": '{"vars": {"a": 1}, "schema": {"a": "word"}}',
    "missing kind": '{"vars": {"a": 1, "b": 2}, "schema": {"a": "int"}}',
    "int too big": '{"vars": {"a": 2147483648}, "schema": {"a": "int"}}',
    "int too small": '{"vars": {"a": -2147483649}, "schema": {"a": "int"}}',
    "uint negative": '{"vars": {"a": -1}, "schema": {"a": "uint"}}',
    "uint too big": '{"vars": {"a": 4294967296}, "schema": {"a": "uint"}}',
    "int as text": '{"vars": {"a": "1"}, "schema": {"a": "int"}}',
    "int as float": '{"vars": {"a": 1.5}, "schema": {"a": "int"}}',
    "float as int": '{"vars": {"a": 1}, "schema": {"a": "float"}}',
    "bool as int": '{"vars": {"a": 1}, "schema": {"a": "bool"}}',
    "null": '{"vars": {"a": null}, "schema": {"a": "int"}}',
    "string as int": '{"vars": {"a": 7}, "schema": {"a": "string"}}',
    "string beyond latin1": '{"vars": {"a": "\\u0142"}, "schema": {"a": "string"}}',
    "vec2 short": '{"vars": {"a": [1.0]}, "schema": {"a": "vec2"}}',
    "vec2 long": '{"vars": {"a": [1.0, 2.0, 3.0]}, "schema": {"a": "vec2"}}',
    "vec2 ints": '{"vars": {"a": [1, 2]}, "schema": {"a": "vec2"}}',
    "vec2 scalar": '{"vars": {"a": 1.0}, "schema": {"a": "vec2"}}',
    "struct as list": '{"vars": {"a": [1]}, "schema": {"a": {"b": "int"}}}',
    "array as scalar": '{"vars": {"a": 1}, "schema": {"a": ["int"]}}',
    "array bad member": '{"vars": {"a": [1, "x"]}, "schema": {"a": ["int"]}}',
    "array no schema": '{"vars": {"a": [1]}, "schema": {"a": []}}',
    "nested bad": '{"vars": {"a": [{"b": [1, -1]}]}, "schema": {"a": [{"b": ["uint"]}]}}',
    "last one bad": '{"vars": {"a": 1, "b": "x", "c": 1.5, "d": true, "e": -5}, "schema": {"a": "int", "b": "string", "c": "float", "d": "bool", "e": "uint"}}',
    "float too big": '{"vars": {"a": 1e300}, "schema": {"a": "float"}}',
    "vec2 too big": '{"vars": {"a": [0.0, 1e300]}, "schema": {"a": "vec2"}}',
}


TARGETS = ["bare", "many", "DF_STA", "DF_CFG", "DF_FOG"]


def target(kind):
    if kind in LEVELS:
        return level_bytes(kind, True)
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        w.write_var_file(kind.encode(), {"a": VariableInt(s("old", 32)), "b": VariableString(sbytes("ob", 2))})
    return out.getvalue()


@cases(kind=TARGETS, bad=list(BAD_JSON))
def case_invalid_edit(kind, bad):
    data = target(kind)
    add_file("file", data)
    add_file("new.json", BAD_JSON[bad])
    for alone in (False, True):
        code = go(alone, "variables", "file", "new.json")
        require(code != 0, "an invalid edit fails: " + bad, code)
        require_same(get_file("file"), data, "an invalid edit leaves the file alone: " + bad)
    if kind not in LEVELS:
        code = run("variables", "file", "new.json", "--header", kind)
        require(code != 0, "an invalid edit fails: " + bad, code)
        require_same(get_file("file"), data, "an invalid edit with a header leaves the file alone: " + bad)
        code = run("variables", "absent", "new.json", "--header", kind)
        require(code != 0 and get_file("absent") is None, "an invalid edit creates no file: " + bad)


@cases(kind=["many", "DF_STA"], size=[65535, 65536, 70000])
def case_long_string(kind, size):
    data = target(kind)
    add_file("file", data)
    add_file("new.json", json.dumps({"vars": {"k": 1, "a": "a" * size}, "schema": {"k": "int", "a": "string"}}))
    require(run("variables", "file", "new.json") == 0, "long strings are written")
    with DFReader(io.BytesIO(get_file("file"))) as r:
        back = r.read_level(metadata_only=True).variables if kind == "many" else r.read_var_file(kind.encode())
    require(back["a"].value == b"a" * size and back["k"].value == 1, "long strings are kept")


@cases(kind=["many", "DF_STA"])
def case_array_too_long(kind):
    max_loop(70000)
    data = target(kind)
    add_file("file", data)
    add_file("new.json", json.dumps({"vars": {"k": 1, "a": [0] * 65536}, "schema": {"k": "int", "a": ["uint"]}}))
    code = run("variables", "file", "new.json")
    require(code != 0, "an array that cannot be encoded fails", code)
    require_same(get_file("file"), data, "an array that cannot be encoded leaves the file alone")


@cases(name=["a" * 64, "a" * 200, "\u0142", "sp ace", "dash-ed", "\u00e9"])
def case_name_not_encodable(name):
    data = target("many")
    add_file("file", data)
    add_file("new.json", json.dumps({"vars": {"k": 1, name: 2}, "schema": {"k": "int", name: "int"}}))
    code = run("variables", "file", "new.json")
    require(code != 0, "a name that cannot be encoded fails", code)
    require_same(get_file("file"), data, "a name that cannot be encoded leaves the file alone")


@cases(header=["DF_LVL", "DF_RPL", "DF_XXX", "df_sta", "DF_ST", "DF_STAT", "x"], exists=[False, True])
def case_unknown_kind(header, exists):
    put_json("new.json", new_vars())
    data = header.encode() + opaque("rest", 30)
    if exists:
        add_file("file", data)
    code = run("variables", "file", "new.json", "--header", header)
    require(code != 0, "an unknown header is refused", code)
    require(get_file("file") is None if not exists else True, "an unknown header creates no file")
    if exists:
        require_same(get_file("file"), data, "an unknown header leaves the file alone")
    if header in ("DF_RPL", "DF_XXX", "df_sta") and exists:
        for argv in (["file", "new.json"], ["file"]):
            code = run("variables", *argv)
            require(code != 0, "a file of unknown kind is refused", code)
            require_same(get_file("file"), data, "a file of unknown kind is left alone")


def case_missing_files():
    data = target("many")
    add_file("file", data)
    put_json("new.json", new_vars())
    require(run("variables", "file", "absent.json") != 0, "missing new data fails")
    require_same(get_file("file"), data, "missing new data leaves the file alone")
    require(run("variables", "absent", "new.json") != 0, "a missing file fails")
    require(get_file("absent") is None, "a missing file is not created")
    require(run("variables", "absent") != 0, "a missing file fails")
    require(run("thumbnail", "absent", "img") != 0 and get_file("img") is None, "a missing level fails")
    require(run("thumbnail", "file", "img", "--update") != 0, "a missing image fails")
    require_same(get_file("file"), data, "a missing image leaves the file alone")


@cases(cut=[1, 5, 6, 8, 12, 16, 20, 40, 60, 100, 150])
def case_truncated_level(cut):
    data = target("many")[:cut]
    add_file("file", data)
    add_file("img", opaque("img", 10))
    put_json("new.json", new_vars())
    for tool, argv in (("variables", ["file", "new.json"]), ("thumbnail", ["file", "img", "--update"])):
        code = run(tool, *argv)
        require(code != 0, "a truncated level is refused", code)
        require_same(get_file("file"), data, "a truncated level is left alone")


# ---------------------------------------------------------------- thumbnails
@cases(which=LEVELS, shot=[False, True], alone=[False, True], taken=[None, False, True])
def case_update_thumbnail(which, shot, alone, taken):
    level = make_level(which, shot)
    if taken is not None:
        level.variables["icon_taken"] = VariableBool(taken)
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        if which == "bare":
            w.write_level_ex(level, [0], b"")
        else:
            w.write_level(level)
    data = out.getvalue()
    img = opaque("img", 77)
    add_file("level", data)
    add_file("img", img)
    code = go(alone, "thumbnail", "level", "img", "--update")
    require(code == 0, "updating the thumbnail succeeds", code)
    before, after = regions_kept(data, get_file("level"))
    require_same(after.sshot, img, "the screenshot is the image")
    want = dict(before.variables)
    want["icon_taken"] = VariableBool(True)
    variables_same(want, after.variables, "variables")
    require_same(get_file("img"), img, "the image is left alone")
    with DFReader(io.BytesIO(get_file("level"))) as r:
        full = r.read_level()
    require(len(full.tiles) == len(level.tiles) and len(full.entities) == len(level.entities), "content of the level")


@cases(shot=[False, True], alone=[False, True], exists=[False, True, "empty"], force=[False, True])
def case_extract_thumbnail(shot, alone, exists, force):
    data = level_bytes("many", shot)
    add_file("level", data)
    old = b"" if exists == "empty" else opaque("old", 9)
    if exists:
        add_file("img", old)
    argv = ["level", "img"] + (["--force"] if force else [])
    code = go(alone, "thumbnail", *argv)
    require_same(get_file("level"), data, "extracting leaves the level alone")
    if exists and not force:
        require(code != 0, "an existing image is not overwritten", code)
        require_same(get_file("img"), old, "an existing image is left alone")
    else:
        require(code == 0, "extracting succeeds", code)
        require_same(get_file("img"), split(data)[0].sshot, "the image is the screenshot")


@cases(opt=["--auto-convert", "--auto-scale"], alone=[False, True])
def case_no_imaging_library(opt, alone):
    data = level_bytes("one", True)
    img = opaque("img", 12)
    add_file("level", data)
    add_file("img", img)
    code = go(alone, "thumbnail", "level", "img", opt)
    require(code != 0, "converting without the imaging library fails", code)
    require_same(get_file("level"), data, "the level is left alone")
    require_same(get_file("img"), img, "the image is left alone")


@cases(kind=["DF_STA", "DF_CFG"])
def case_thumbnail_of_other_file(kind):
    data = target(kind)
    add_file("file", data)
    add_file("img", opaque("img", 12))
    for argv in (["file", "img", "--update"], ["file", "other"]):
        require(run("thumbnail", *argv) != 0, "only levels have thumbnails")
        require_same(get_file("file"), data, "other files are left alone")
        require(get_file("other") is None, "no image is written")


def case_thumbnail_level_not_encodable():
    """level variables that cannot be encoded again leave the level alone"""
    data = level_bytes("one", False)
    add_file("level", data)
    add_file("img", b"x" * 10)
    require(run("thumbnail", "level", "img", "--update") == 0, "updating the thumbnail succeeds")
    require(run("thumbnail", "level", "img") != 0, "an existing image is not overwritten")
    require(run("thumbnail", "level", "img2") == 0 and get_file("img2") == b"x" * 10, "what was set can be extracted")
