"""C29: the transform tool scales, rotates, flips and then shifts."""

import io
import sys

from dustmaker.cmd.common import run_utility
from dustmaker.cmd.main import main
from dustmaker.cmd.transform import Transform
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import AIController, CameraNode, CheckPoint, EnemyKey, Entity
from dustmaker.level import Level, LevelType
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet
from dustmaker.variable import VariableFloat, VariableString, VariableUInt
from rules.common import any_tile, prop_same, some_prop, tile_same
from rules.geometry import edges_of

RULE = (
    "The tool is traced from its command line (parsing and files modelled) for the combinations of scale, quarter turns, flips "
    "and shifts on a level with every tile shape and abstract tile, prop and entity attributes. Positions of entities, props, "
    "starts and waypoints and the covered area of every tile are compared with the four steps written out independently; "
    "all remaining attributes with the library applied step by step. The input file must stay the same and the level type "
    "follow the documented rule."
)

# positions in pixels; whole sixteenths so that the file format keeps them exactly
SPOTS = [(0.0, 0.0), (100.0, 36.5), (-700.25, 1500.0)]
PROPS = [(12.0, -30.0), (-700.0, 1501.0)]
TILES = [(0, 0), (1, 0), (-3, 20)]


def base_level(kind):
    level = Level()
    level.level_type = kind
    level.name = sbytes("name", 3)
    shapes = list(TileShape)
    t = any_tile("t0", TileShape.FULL, TileSpriteSet.CITY)
    for i in range(4):
        t.edge_data[i].angles = (s("an" + str(i), 7), s("bn" + str(i), 7))
    level.tiles[(17, TILES[0][0], TILES[0][1])] = t
    for i, shape in ((1, TileShape.BIG_1), (2, TileShape.SMALL_7)):
        t = Tile(shape, sprite_set=TileSpriteSet.FOREST, sprite_tile=10 + i, sprite_palette=i)
        for side in edges_of(shape):
            t.edge_data[side] = TileEdgeData(solid=side % 2 == 0, visible=True, caps=(side == 1, side == 2), angles=(side, -side))
        level.tiles[(17, TILES[i][0], TILES[i][1])] = t
    for i in range(2):
        level.add_prop(12 + i, PROPS[i][0], PROPS[i][1], (some_prop("p0") if i == 0 else Prop(3, 0x1234, True, False, 1.0, 2, 3, 4, 5)), 200 + i)
    for i, pos in enumerate(SPOTS):
        e = Entity({"v": VariableUInt(u("ev" + str(i), 32))}, rotation=u("er" + str(i), 16), flip_x=flag("ex" + str(i)), flip_y=flag("ey" + str(i)), layer=u("el" + str(i), 8))
        e.etype = "thing"
        level.add_entity(pos[0], pos[1], e, 300 + i)
    ai = AIController()
    ai.nodes.append((10.0, -20.0))
    level.add_entity(5.0, 6.0, ai, 310)
    cam = CameraNode()
    level.add_entity(-5.0, 6.0, cam, 311)
    level.start_position(1).x = 100
    level.start_position(1).y = -250
    level.start_position(2).x = 7
    level.backdrop.tiles[(6, 2, -3)] = Tile(TileShape.SMALL_5, sprite_set=TileSpriteSet.CITY, sprite_tile=2)
    level.backdrop.add_prop(6, 30.0, -40.0, Prop(1, 0x4321, False, True, 1.0, 5, 6, 7, 8), 400)
    return level


def written(level):
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        w.write_level(level)
    return out.getvalue()


def read(data):
    with DFReader(io.BytesIO(data)) as r:
        return r.read_level()


def run(alone, *argv):
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        if alone:
            sys.argv = ["prog"] + list(argv)
            code = run_utility(Transform)
        else:
            sys.argv = ["prog", "transform"] + list(argv)
            code = main()
    except SystemExit as e:
        code = e.args[0] if e.args else 0
    return 0 if code is None else code


def turned(times, x, y):
    for _ in range(times % 4):
        x, y = -y, x
    return x, y


def moved(o, x, y):
    """a point through the four steps"""
    x, y = x * o["scale"], y * o["scale"]
    x, y = turned(o["turn"], x, y)
    if o["v"]:
        y = -y
    if o["h"]:
        x = -x
    return x + o["dx"], y + o["dy"]


def arguments(o, style):
    argv = ["in", "out"]
    pairs = []
    if o["scale"] != 1 or style == 1:
        pairs.append(("--upscale", str(o["scale"])))
    if o["turn"] != 0 or style == 1:
        pairs.append(("--rotate", str(o["turn"])))
    if o["dx"] != 0 or style == 1:
        pairs.append(("--translate-x", str(o["dx"])))
    if o["dy"] != 0 or style == 1:
        pairs.append(("--translate-y", str(o["dy"])))
    opts = []
    for k, v in pairs:
        opts += [k + "=" + v] if style == 1 else [k, v]
    if o["v"]:
        opts.append("--vflip")
    if o["h"]:
        opts.append("--hflip")
    return opts + argv if style == 1 else argv + opts


def stepwise(level, o):
    """the library applied step by step"""
    if o["scale"] > 1:
        level.upscale(o["scale"])
    if o["turn"] % 4:
        level.rotate(o["turn"])
    if o["v"]:
        level.flip_vertical()
    if o["h"]:
        level.flip_horizontal()
    level.translate(o["dx"], o["dy"])


def expected_squares(o, key):
    """tiles covered by the image of a full tile, for whole-tile shifts"""
    layer, x, y = key
    out = []
    for sx in range(o["scale"]):
        for sy in range(o["scale"]):
            cx, cy = x * o["scale"] + sx, y * o["scale"] + sy
            # centre of the square, in half tiles
            hx, hy = turned(o["turn"], 2 * cx + 1, 2 * cy + 1)
            if o["v"]:
                hy = -hy
            if o["h"]:
                hx = -hx
            out.append((layer, (hx - 1) // 2 + int(o["dx"]) // 48, (hy - 1) // 2 + int(o["dy"]) // 48))
    return out


def check(o, kind, alone, style):
    source = base_level(kind)
    data = written(source)
    add_file("in", data)
    code = run(alone, *arguments(o, style))
    require(code == 0, "the tool succeeds", code)
    require_same(get_file("in"), data, "the input file is left alone")
    got = read(get_file("out"))
    want = read(data)
    stepwise(want, o)
    want = read(written(want))

    # level type
    final = LevelType.DUSTMOD if o["scale"] > 1 and kind == LevelType.NORMAL else kind
    require(got.level_type == final, "level type", got.level_type, final)
    require(got.name == source.name, "other variables are kept")

    # positions, independently
    for i, pos in enumerate(SPOTS):
        x, y, e = got.entities[300 + i]
        tx, ty = moved(o, pos[0], pos[1])
        require(x == tx and y == ty, "entity position", (x, y), (tx, ty))
        require(e.etype == "thing" and e.variables["v"].value == u("ev" + str(i), 32), "entity content")
    for i in range(2):
        layer, x, y, prop = got.props[200 + i]
        tx, ty = moved(o, PROPS[i][0], PROPS[i][1])
        # the file keeps whole pixels of prop positions
        require(layer == 12 + i and abs(x - tx) < 1 and abs(y - ty) < 1, "prop position", (x, y), (tx, ty))
        if tx == int(tx) and ty == int(ty):
            require(x == tx and y == ty, "prop position", (x, y), (tx, ty))
    nx, ny = got.entities[310][2].nodes[0]
    require((nx, ny) == moved(o, 10.0, -20.0), "waypoints")
    for player, pos in ((1, (100, -250)), (2, (7, 0))):
        sx, sy = moved(o, pos[0], pos[1])
        p = got.start_position(player)
        require(p.x == int(round(sx)) and p.y == int(round(sy)), "start position", p.x, p.y, sx, sy)
    if int(o["dx"]) % 48 == 0 and int(o["dy"]) % 48 == 0:
        full = expected_squares(o, (17, TILES[0][0], TILES[0][1]))
        for k in full:
            require(k in got.tiles and got.tiles[k].shape == TileShape.FULL, "squares of a full tile", k)
        room = expected_squares(o, (17, TILES[1][0], TILES[1][1])) + expected_squares(o, (17, TILES[2][0], TILES[2][1]))
        for k in got.tiles:
            require(k in full or k in room, "tiles lie in the image of the level", k)

    # everything else, against the library step by step
    require(set(got.tiles) == set(want.tiles), "tile positions", list(got.tiles), list(want.tiles))
    for k in want.tiles:
        tile_same(want.tiles[k], got.tiles[k], "tile")
    require(set(got.props) == set(want.props), "props")
    for k in want.props:
        require(got.props[k][:3] == want.props[k][:3], "prop position", got.props[k][:3], want.props[k][:3])
        prop_same(want.props[k][3], got.props[k][3], "prop")
    require(set(got.entities) == set(want.entities), "entities")
    for k in want.entities:
        a, b = want.entities[k], got.entities[k]
        require(a[0] == b[0] and a[1] == b[1], "entity position", a[:2], b[:2])
        for f in ("etype", "rotation", "layer", "flip_x", "flip_y", "visible"):
            require(getattr(a[2], f) == getattr(b[2], f), "entity " + f, getattr(a[2], f), getattr(b[2], f))
        require(a[2].variables == b[2].variables, "entity variables", a[2].variables, b[2].variables)
    require(set(got.backdrop.tiles) == set(want.backdrop.tiles), "backdrop tiles")
    for k in want.backdrop.tiles:
        tile_same(want.backdrop.tiles[k], got.backdrop.tiles[k], "backdrop tile")
    require(set(got.backdrop.props) == set(want.backdrop.props), "backdrop props")
    for k in want.backdrop.props:
        require(got.backdrop.props[k][:3] == want.backdrop.props[k][:3], "backdrop prop position")
        prop_same(want.backdrop.props[k][3], got.backdrop.props[k][3], "backdrop prop")


def opt(scale=1, turn=0, v=False, h=False, dx=0, dy=0):
    return {"scale": scale, "turn": turn, "v": v, "h": h, "dx": dx, "dy": dy}


SCALES = [1, 2, 3] + ([4, 5] if THOROUGH else [])


@cases(scale=SCALES, turn=[0, 1, 2, 3], v=[False, True], h=[False, True], shift=[(0, 0), (96, -480), (96.5, 7.25)])
def case_combinations(scale, turn, v, h, shift):
    check(opt(scale, turn, v, h, shift[0], shift[1]), LevelType.NORMAL, False, 0)


@cases(kind=list(LevelType), scale=[1, 2, 3])
def case_level_types(kind, scale):
    check(opt(scale, 1, False, True, 48, -96), kind, True, 0)


@cases(turn=[-9, -5, -4, -3, -2, -1, 4, 5, 6, 7, 400, 403])
def case_many_turns(turn):
    check(opt(1, turn, True, False, -48, 0), LevelType.NORMAL, True, 1)
    check(opt(2, turn, False, False, 0, 48), LevelType.NEXUS, False, 1)


@cases(dx=[0, 1, -1, 0.5, 47, 48, -48, 1000.75], dy=[0, -1, 33.25, 96], scale=[1, 2])
def case_shifts(dx, dy, scale):
    check(opt(scale, 0, False, False, dx, dy), LevelType.NORMAL, False, 1)


def tame(t):
    for i in range(4):
        t.edge_data[i].angles = (s("an" + str(i), 7), s("bn" + str(i), 7))
    return t


PARTS = ["tile", "prop", "entity", "back tile", "back prop", "start", "nothing"]


@cases(part=PARTS, o=[opt(2), opt(3, 1, True), opt(1, 2), opt(1, 3, False, True), opt(1, 0, True), opt(1, 0, False, False, 96, -48), opt(4, 2, False, False, 48, 0)], kind=[LevelType.NORMAL, LevelType.NEXUS])
def case_parts(part, o, kind):
    """levels that hold only one sort of content"""
    level = Level()
    level.level_type = kind
    level.name = b"n"
    if part == "tile":
        level.tiles[(19, 2, -3)] = tame(any_tile("t", TileShape.FULL))
    elif part == "back tile":
        level.backdrop.tiles[(6, 2, -3)] = tame(any_tile("t", TileShape.FULL))
    elif part == "prop":
        level.add_prop(9, 10.0, -20.0, some_prop("p"), 200)
    elif part == "back prop":
        level.backdrop.add_prop(6, 10.0, -20.0, some_prop("p"), 200)
    elif part == "entity":
        level.add_entity(10.0, -20.0, EnemyKey(), 200)
        level.entities[200][2].lastX = 3.0
        level.add_entity(30.0, -21.0, CheckPoint(), 201)
        level.entities[201][2].trigger_areas.append((5.0, -6.0))
    elif part == "start":
        level.start_position(3).x = 17
    data = written(level)
    add_file("in", data)
    code = run(False, *arguments(o, 0))
    require(code == 0, "the tool succeeds", code)
    require_same(get_file("in"), data, "the input file is left alone")
    got = read(get_file("out"))
    final = LevelType.DUSTMOD if o["scale"] > 1 and kind == LevelType.NORMAL else kind
    require(got.level_type == final, "level type", got.level_type, final)
    for player in range(1, 5):
        sx, sy = moved(o, 17 if part == "start" and player == 3 else 0, 0)
        p = got.start_position(player)
        require(p.x == sx and p.y == sy, "start position", player, p.x, p.y)
    tiles = expected_squares(o, (19, 2, -3)) if part == "tile" else []
    back = expected_squares(o, (6, 2, -3)) if part == "back tile" else []
    require(set(got.tiles) == set(tiles), "tiles", list(got.tiles))
    require(set(got.backdrop.tiles) == set(back), "backdrop tiles", list(got.backdrop.tiles))
    for where, name in ((got, "prop"), (got.backdrop, "back prop")):
        require(len(where.props) == (1 if part == name else 0), "number of props")
        if part == name:
            require(where.props[200][1:3] == moved(o, 10.0, -20.0), "prop position", where.props[200][1:3])
    require(len(got.entities) == (2 if part == "entity" else 0), "number of entities")
    if part == "entity":
        x, y, e = got.entities[200]
        require((x, y) == moved(o, 10.0, -20.0), "entity position", x, y)
        require((e.lastX, e.lastY) == moved(o, 3.0, 0.0), "key position", e.lastX, e.lastY)
        x, y, e = got.entities[201]
        require((x, y) == moved(o, 30.0, -21.0), "entity position", x, y)
        still = dict(o)
        still["dx"] = still["dy"] = 0
        require(tuple(e.trigger_areas[0]) == moved(still, 5.0, -6.0), "trigger area", e.trigger_areas[0])


@cases(bad=[["in"], [], ["in", "out", "--upscale", "x"], ["in", "out", "--rotate", "1.5"], ["in", "out", "--unknown"], ["absent", "out"]])
def case_bad_arguments(bad):
    data = written(base_level(LevelType.NORMAL))
    add_file("in", data)
    try:
        code = run(False, *bad)
    except OSError:
        code = 1
    require(code != 0, "a run without valid arguments fails", code)
    require_same(get_file("in"), data, "the input file is left alone")
    require(get_file("out") is None, "nothing is written")
