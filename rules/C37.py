"""C37: every tool behaves alike alone and through the shared command line, and fails without side effects."""

import io
import json
import sys

from dustmaker.cmd.common import run_utility
from dustmaker.cmd.main import main
from dustmaker.cmd.save_convert import SaveConvert
from dustmaker.cmd.thumbnail import Thumbnail
from dustmaker.cmd.transform import Transform
from dustmaker.cmd.variables import Variables
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import VariableArray, VariableBool, VariableInt, VariableString, VariableStruct
from rules.C28 import level_bytes, new_vars, put_json, regions_kept, target, variables_same
from rules.C30 import concrete_score

RULE = (
    "Both ways to start a tool, the shared entry point and the tool's own, are traced from the command line over the same files "
    "(argument parsing, file access, JSON text and the imaging library are modelled) and compared: exit status, printed document "
    "and every file byte by byte, for valid requests of each tool and option, missing, surplus, ill-typed and unknown arguments, "
    "unknown tools, absent, truncated and foreign input files. A failing run must leave every file as it was and create none; "
    "without a tool name the shared entry point must print its help and touch nothing. Image conversion must store the PNG form "
    "of the image, scaled to 382 x 182 on request, as a plain update would."
)

TOOLS = {"transform": Transform, "variables": Variables, "thumbnail": Thumbnail, "saveconvert": SaveConvert}
NAMES = ["level", "stats", "new.json", "img", "out", "absent", "cut", "text"]


def start(alone, tool, argv):
    """(exit status, printed text); an exception is a failure"""
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        if alone:
            sys.argv = ["prog"] + list(argv)
            code = run_utility(TOOLS[tool])
        else:
            sys.argv = ["prog", tool] + list(argv)
            code = main()
    except SystemExit as e:
        code = e.args[0] if e.args else 0
    except Exception as e:
        code = type(e).__name__ + ": " + str(e)
    return (0 if code is None else code), sys.stdout.getvalue()


def stats_bytes(names):
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        w.write_var_file(
            b"DF_STA",
            {
                "score": VariableArray(VariableStruct, [concrete_score(k, i) for i, k in enumerate(names)]),
                "citybook": VariableArray(VariableString, [VariableString(sbytes("cb", 3))]),
                "other": VariableInt(5),
            },
        )
    return out.getvalue()


def files():
    # far enough from the limits for every transformation asked for
    assume(-(1 << 20) < s("px", 32) < (1 << 20))
    level = level_bytes("many", True)
    out = {"level": level, "stats": stats_bytes(["dome", "nowhere", "abyss"]), "img": opaque("img", 31), "cut": level[:40], "text": b"hello"}
    put_json("new.json", new_vars())
    out["new.json"] = get_file("new.json")
    return out


def lay(content):
    for k in NAMES:
        remove_file(k)
    for k in content:
        add_file(k, content[k])


def unchanged(content, where):
    for k in NAMES:
        if k in content:
            require_same(get_file(k), content[k], where + " leaves the file alone: " + k)
        else:
            require(get_file(k) is None, where + " creates no file: " + k)


VALID = [
    ("transform", ["level", "out"]),
    ("transform", ["level", "out", "--upscale", "2", "--rotate", "-1", "--hflip", "--translate-x", "48"]),
    ("transform", ["level", "level", "--vflip"]),
    ("transform", ["level", "out", "--translate-y=-96.5"]),
    ("variables", ["level"]),
    ("variables", ["stats", "--indent", "0"]),
    ("variables", ["level", "new.json"]),
    ("variables", ["stats", "new.json"]),
    ("variables", ["out", "new.json", "--header", "DF_CFG"]),
    ("variables", ["--header=DF_FOG", "stats", "new.json"]),
    ("thumbnail", ["level", "out"]),
    ("thumbnail", ["level", "img", "--force"]),
    ("thumbnail", ["level", "img", "--update"]),
    ("saveconvert", ["stats", "out"]),
    ("saveconvert", ["stats", "stats"]),
]


@cases(which=list(range(len(VALID))))
def case_both_ways_agree(which):
    tool, argv = VALID[which]
    content = files()
    lay(content)
    a, text_a = start(False, tool, argv)
    after = {}
    for k in NAMES:
        after[k] = get_file(k)
    lay(content)
    b, text_b = start(True, tool, argv)
    require(a == 0, "a valid request through the shared command line succeeds", tool, argv, a)
    require(b == 0, "a valid request to the tool alone succeeds", tool, argv, b)
    for k in NAMES:
        require((after[k] is None) == (get_file(k) is None), "both ways make the same files", k)
        if after[k] is not None:
            require_same(get_file(k), after[k], "both ways make the same files: " + k)
    # only the file asked for is touched
    touched = {"transform": argv[1:2], "saveconvert": argv[1:2]}.get(tool)
    if tool == "variables":
        touched = [x for x in argv if x in ("level", "stats", "out")] if "new.json" in argv else []
    if tool == "thumbnail":
        touched = ["level"] if "--update" in argv else [argv[1]]
    for k in NAMES:
        if k not in touched:
            require((k in content) == (get_file(k) is not None), "no other file is made or removed", k)
            if k in content:
                require_same(get_file(k), content[k], "no other file is changed: " + k)
        else:
            require(get_file(k) is not None, "the result is there", k)
    if tool == "variables" and not touched:
        one, two = json.loads(text_a), json.loads(text_b)
        require_same(one, two, "both ways print the same document")


INVALID = [
    ("transform", []),
    ("transform", ["level"]),
    ("transform", ["level", "out", "img"]),
    ("transform", ["absent", "out"]),
    ("transform", ["absent", "img"]),
    ("transform", ["cut", "img"]),
    ("transform", ["cut", "out"]),
    ("transform", ["cut", "cut"]),
    ("transform", ["stats", "stats"]),
    ("transform", ["text", "img"]),
    ("transform", ["level", "img", "--upscale"]),
    ("transform", ["level", "img", "--upscale", "two"]),
    ("transform", ["level", "img", "--rotate", "0.5"]),
    ("transform", ["level", "img", "--translate-x", "far"]),
    ("transform", ["level", "img", "--scale", "2"]),
    ("variables", []),
    ("variables", ["absent"]),
    ("variables", ["absent", "new.json"]),
    ("variables", ["level", "absent"]),
    ("variables", ["level", "new.json", "img"]),
    ("variables", ["cut", "new.json"]),
    ("variables", ["text"]),
    ("variables", ["text", "new.json"]),
    ("variables", ["img", "new.json", "--header", "DF_LVL"]),
    ("variables", ["out", "new.json", "--header", "stats"]),
    ("variables", ["out", "new.json"]),
    ("variables", ["stats", "--indent", "wide"]),
    ("variables", ["stats", "new.json", "--force"]),
    ("thumbnail", []),
    ("thumbnail", ["level"]),
    ("thumbnail", ["level", "img"]),
    ("thumbnail", ["level", "stats"]),
    ("thumbnail", ["level", "out", "img"]),
    ("thumbnail", ["absent", "out"]),
    ("thumbnail", ["absent", "img", "--force"]),
    ("thumbnail", ["absent", "img", "--update"]),
    ("thumbnail", ["level", "absent", "--update"]),
    ("thumbnail", ["cut", "img", "--update"]),
    ("thumbnail", ["stats", "out"]),
    ("thumbnail", ["stats", "img", "--update"]),
    ("thumbnail", ["text", "img", "--force"]),
    ("thumbnail", ["level", "img", "--auto-convert"]),
    ("thumbnail", ["level", "img", "--auto-scale", "--force"]),
    ("thumbnail", ["level", "out", "--format", "png"]),
    ("saveconvert", []),
    ("saveconvert", ["stats"]),
    ("saveconvert", ["stats", "out", "img"]),
    ("saveconvert", ["absent", "out"]),
    ("saveconvert", ["absent", "img"]),
    ("saveconvert", ["level", "img"]),
    ("saveconvert", ["level", "out"]),
    ("saveconvert", ["cut", "cut"]),
    ("saveconvert", ["text", "img"]),
    ("saveconvert", ["stats", "out", "--force"]),
]


@cases(which=list(range(len(INVALID))), alone=[False, True])
def case_failing_run_changes_nothing(which, alone):
    tool, argv = INVALID[which]
    content = files()
    lay(content)
    code, _ = start(alone, tool, argv)
    require(code != 0, "an invalid request fails", tool, argv, code)
    unchanged(content, "a failing run")


@cases(name=["", "Transform", "convert", "save_convert", "level", "thumb", "--tool", "variable"])
def case_unknown_tool(name):
    content = files()
    lay(content)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    sys.argv = ["prog", name, "level", "out"]
    try:
        code = main()
    except SystemExit as e:
        code = e.args[0] if e.args else 0
    require(code != 0 and code is not None, "an unknown tool is refused", name, code)
    unchanged(content, "an unknown tool")


def case_no_tool():
    content = files()
    lay(content)
    before = len(opens())
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    sys.argv = ["prog"]
    try:
        code = main()
    except SystemExit as e:
        code = e.args[0] if e.args else 0
    require(code == 0 or code is None, "without a tool the help is shown", code)
    require(len(sys.stdout.getvalue()) > 0, "without a tool the help is shown")
    require(len(opens()) == before, "showing the help opens no file", opens())
    unchanged(content, "showing the help")


@cases(alone=[False, True], opt=[["--auto-convert"], ["--auto-scale"], ["--auto-scale", "--auto-convert"], ["--auto-convert", "--update"], ["--auto-scale", "--force"]], shot=[False, True], size=[(640, 480), (382, 182), (382, 100), (100, 182), (1, 1)])
def case_image_conversion(alone, opt, shot, size):
    imaging(True)
    from PIL.Image import image_bytes, size_of

    data = level_bytes("many", shot)
    picture = b"some picture"
    size_of[repr(picture)] = size
    add_file("level", data)
    add_file("img", picture)
    code, _ = start(alone, "thumbnail", ["level", "img"] + opt)
    require_same(get_file("img"), picture, "the image is only read")
    if code != 0:
        # no imaging library after all
        require_same(get_file("level"), data, "a failing run leaves the level alone")
        return
    before, after = regions_kept(data, get_file("level"))
    steps = ((382, 182),) if "--auto-scale" in opt and size != (382, 182) else ()
    require_same(after.sshot, image_bytes(repr(picture), steps, "PNG"), "the screenshot is the image in PNG form")
    want = dict(before.variables)
    want["icon_taken"] = VariableBool(True)
    variables_same(want, after.variables, "variables")


@cases(opt=["--auto-convert", "--auto-scale"], alone=[False, True])
def case_image_missing(opt, alone):
    imaging(True)
    data = level_bytes("many", True)
    add_file("level", data)
    code, _ = start(alone, "thumbnail", ["level", "absent", opt])
    require(code != 0, "a missing image fails", code)
    require_same(get_file("level"), data, "a missing image leaves the level alone")
    require(get_file("absent") is None, "no image is made")


@cases(damage=["gone", "cut", "noise"], alone=[False, True])
def case_variables_of_damaged_regions(damage, alone):
    """variables are shown from the level header alone, whatever became of the region data"""
    data = level_bytes("many", True)
    with DFReader(io.BytesIO(data)) as r:
        level, offsets = r.read_level_ex()
        at = r.bit_tell() // 8
    if damage == "gone":
        bad = data[:at]
    elif damage == "cut":
        bad = data[: at + 7]
    else:
        bad = data[:at] + opaque("noise", offsets[-1])
    add_file("level", bad)
    code, text = start(alone, "variables", ["level"])
    require(code == 0, "variables of a level with damaged regions are shown", code)
    from dustmaker.cmd.variables import json_to_variables

    shown = json.loads(text)
    variables_same(level.variables, json_to_variables(shown["schema"], shown["vars"]).value, "shown variables")
    require_same(get_file("level"), bad, "showing variables changes nothing")
