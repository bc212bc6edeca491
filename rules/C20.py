"""C20: transforming a level moves all of its contents consistently."""

from dustmaker import entity as entity_types
from dustmaker.entity import AIController, CameraNode, CheckPoint, DeathZone, EndZone, EnemyKey, Enemy, Entity
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.transform import TxMatrix
from dustmaker.variable import VariableInt, VariableString
from rules.common import any_tile, some_prop
from rules.registry import REGISTRY_NAMES

RULE = (
    "Levels with abstract objects, positions and attributes are traced through Level.transform and its shorthands for all "
    "eight flips/rotations with and without whole-tile translations; every tile square, prop, entity, start position and "
    "position-bearing entity field is compared with the map written out independently, and transforming twice is compared "
    "with transforming once by the product."
)

# y points down, rotation clockwise; (xx, xy, yx, yy) of the eight maps
H, V = TxMatrix.HFLIP, TxMatrix.VFLIP
R = TxMatrix.ROTATE
MAPS = {
    "e": (TxMatrix.IDENTITY, (1, 0, 0, 1), 0, False),
    "r": (R[1], (0, -1, 1, 0), 1, False),
    "rr": (R[2], (-1, 0, 0, -1), 2, False),
    "rrr": (R[3], (0, 1, -1, 0), 3, False),
    "h": (H, (-1, 0, 0, 1), None, True),
    "v": (V, (1, 0, 0, -1), None, True),
    "hr": (R[1] * H, (0, -1, -1, 0), None, True),
    "vr": (R[1] * V, (0, 1, 1, 0), None, True),
}
NAMES = list(MAPS)
OFFS = [(0, 0), (3, -7)]


def matrix(name, off):
    return MAPS[name][0].translate(48 * off[0], 48 * off[1])


def lin(name, x, y):
    a = MAPS[name][1]
    if a[1] == 0:
        return (x if a[0] == 1 else -x), (y if a[3] == 1 else -y)
    return (y if a[1] == 1 else -y), (x if a[2] == 1 else -x)


def pt(name, off, x, y):
    tx, ty = lin(name, x, y)
    return tx + 48 * off[0], ty + 48 * off[1]


def sq(name, off, x, y):
    """the tile whose square is the image of the square of tile (x, y)"""
    tx, ty = lin(name, x, y)
    a = MAPS[name][1]
    if a[0] == -1 or a[1] == -1:
        tx -= 1
    if a[3] == -1 or a[2] == -1:
        ty -= 1
    return tx + off[0], ty + off[1]


CELLS = [(19, 0, 0), (19, 1, 0), (19, 0, 1), (19, -1, 0), (19, 0, -1), (19, -3, 5), (18, 0, 0), (18, 2, -4), (0, 31, 7), (20, -40, 999), (12, 4095, -4096)]
GRID = [(19, x, y) for x in range(-2, 3) for y in range(-2, 3)]


def check_tiles(got, cells, ids, name, off, where):
    require(len(got) == len(cells), where + ": no tile lost or added", len(got), len(cells))
    for i, (la, x, y) in enumerate(cells):
        nx, ny = sq(name, off, x, y)
        t = got.get((la, nx, ny))
        require(t is not None, where + ": tile moved to the image of its square", (la, x, y), (la, nx, ny))
        if t is not None:
            require(t.sprite_tile == ids[i], where + ": the tile found there is the one that was moved", (la, x, y))
    for key in got:
        require(type(key[1]) is int and type(key[2]) is int, where + ": tile coordinates are ints")


def fill(level, cells):
    ids = []
    for i, c in enumerate(cells):
        t = any_tile("t" + str(i % 3), [TileShape.FULL, TileShape.BIG_2, TileShape.HALF_C, TileShape.SMALL_7][i % 4])
        t.sprite_tile = i + 1
        ids.append(i + 1)
        level.tiles[c] = t
    return ids


@cases(name=NAMES, off=OFFS + [(0, 1), (-100, 0)], cells=[CELLS, GRID])
def case_tiles(name, off, cells):
    lv = Level()
    ids = fill(lv, cells)
    bids = fill(lv.backdrop, cells)
    lv.transform(matrix(name, off))
    check_tiles(lv.tiles, cells, ids, name, off, "tiles")
    check_tiles(lv.backdrop.tiles, cells, bids, name, off, "backdrop tiles")


@cases(name=NAMES, off=OFFS, axis=[0, 1], layer=[19, 4], back=[False, True], base=[0, -1000, 30000])
def case_any_tile(name, off, axis, layer, back, base):
    """one tile anywhere along an axis"""
    lv = Level()
    w = base + s("w", 8)
    x, y = (w, 5) if axis == 0 else (-6, w)
    (lv.backdrop if back else lv).tiles[(layer, x, y)] = any_tile("t", TileShape.FULL)
    lv.transform(matrix(name, off))
    got = list((lv.backdrop if back else lv).tiles.items())
    require(len(got) == 1 and len(lv.tiles) + len(lv.backdrop.tiles) == 1, "one tile")
    nx, ny = sq(name, off, x, y)
    key = got[0][0]
    require(key[0] == layer, "tile layer")
    require(key[1] == nx, "tile x", key[1], nx)
    require(key[2] == ny, "tile y", key[2], ny)


@cases(name=NAMES, off=OFFS, back=[False, True])
def case_props(name, off, back):
    lv = Level()
    tgt = lv.backdrop if back else lv
    spots = [(s("x", 14), s("y", 14)), (dyadic("fx", 16, 4, True), dyadic("fy", 16, 4, True)), (0, 0), (-17.25, 3.5)]
    ids = []
    olds = []
    for i, (x, y) in enumerate(spots):
        p = some_prop("p" + str(i), 1.5)
        olds.append(clone(p))
        ids.append(tgt.add_prop(4 + i, x, y, p))
    lv.transform(matrix(name, off))
    require(list(tgt.props) == ids, "prop ids are kept")
    for i, (x, y) in enumerate(spots):
        la, tx, ty, p = tgt.props[ids[i]]
        ex, ey = pt(name, off, x, y)
        require(la == 4 + i, "prop layer")
        require(tx == ex, "prop x", tx, ex)
        require(ty == ey, "prop y", ty, ey)
        o = olds[i]
        for k in ("layer_sub", "prop_set", "prop_group", "prop_index", "palette", "scale"):
            require(getattr(p, k) == getattr(o, k), "prop " + k + " is kept")
        check_orientation(o, p, name, "prop")


def check_orientation(o, p, name, where):
    turns, mirrored = MAPS[name][2], MAPS[name][3]
    require(((p.flip_x != p.flip_y) != (o.flip_x != o.flip_y)) == mirrored, where + ": mirrored exactly by a flip")
    require(0 <= p.rotation and p.rotation <= 0xFFFF, where + ": rotation stays a 16-bit angle", p.rotation)
    if turns is not None:
        require(p.rotation == (o.rotation + 0x4000 * turns) & 0xFFFF, where + ": clockwise quarter turns add to the rotation", o.rotation, p.rotation)


def entity(kind, n):
    extra = {"keepme": VariableString(b"abc"), "alsome": VariableInt(s(n + "k", 32))}
    cls = {"ai": AIController, "check": CheckPoint, "zone": EndZone, "death": DeathZone, "key": EnemyKey, "camera": CameraNode, "plain": Entity, "enemy": Enemy}[kind]
    return cls(extra, u(n + "rot", 16), u(n + "lay", 8), flag(n + "fx"), flag(n + "fy"), flag(n + "vis"))


def points():
    return [(dyadic("n0x", 14, 1, True), dyadic("n0y", 14, 1, True)), (dyadic("n1x", 16, 4, True), -3.5), (0.0, dyadic("n2y", 16, 4, True)), (-48.0, 96.0)]


@cases(name=NAMES, off=OFFS, kind=["plain", "ai", "check", "zone", "death", "key", "camera"])
def case_entities(name, off, kind):
    lv = Level()
    spots = [(s("x", 14), s("y", 14)), (dyadic("fx", 16, 4, True), dyadic("fy", 16, 4, True)), (-17.25, 0.0)]
    ids = []
    for i, (x, y) in enumerate(spots):
        e = entity(kind, "e" + str(i))
        if kind == "ai":
            for q in points():
                e.nodes.append(q)
            e.puppet = 77
            e.node_wait_times.append(31)
        elif kind in ("check", "zone"):
            for q in points():
                e.trigger_areas.append(q)
        elif kind == "death":
            e.width = u("w", 12)
            e.height = u("h", 12)
        elif kind == "key":
            e.lastX, e.lastY = points()[2 if i else 1]
            e.door = 5
        elif kind == "camera":
            e.zoom = u("zoom", 12)
            e.width = u("cw", 12)
            e.nodes.append(9)
        ids.append(lv.add_entity(x, y, e))
    olds = [clone(lv.entities[i][2]) for i in ids]
    lv.transform(matrix(name, off))
    require(list(lv.entities) == ids, "entity ids are kept")
    for i, (x, y) in enumerate(spots):
        tx, ty, e = lv.entities[ids[i]]
        o = olds[i]
        ex, ey = pt(name, off, x, y)
        require(tx == ex, "entity x", tx, ex)
        require(ty == ey, "entity y", ty, ey)
        require(type(e) is type(o) and e.etype == o.etype, "entity type is kept")
        require(e.layer == o.layer and e.visible == o.visible, "entity layer and visibility are kept")
        for k in ("keepme", "alsome"):
            require(e.variables[k] == o.variables[k], "entity variable is kept")
        check_orientation(o, e, name, "entity")
        if kind == "ai":
            require(len(e.nodes) == len(points()), "number of waypoints")
            for q, r in zip(points(), list(e.nodes)):
                p = pt(name, off, q[0], q[1])
                require(r[0] == p[0], "waypoint x", r[0], p[0])
                require(r[1] == p[1], "waypoint y", r[1], p[1])
            require(e.puppet == 77 and list(e.node_wait_times) == [31], "other controller data")
        elif kind in ("check", "zone"):
            require(len(e.trigger_areas) == len(points()), "number of trigger areas")
            for q, r in zip(points(), list(e.trigger_areas)):
                p = lin(name, q[0], q[1])
                require(r[0] == p[0], "trigger area x (relative)", r[0], p[0])
                require(r[1] == p[1], "trigger area y (relative)", r[1], p[1])
        elif kind == "death":
            w, h = (o.width, o.height) if MAPS[name][1][1] == 0 else (o.height, o.width)
            require(e.width == w, "death zone width", e.width, w)
            require(e.height == h, "death zone height", e.height, h)
        elif kind == "key":
            p = pt(name, off, o.lastX, o.lastY)
            require(e.lastX == p[0], "key x", e.lastX, p[0])
            require(e.lastY == p[1], "key y", e.lastY, p[1])
            require(e.door == 5, "key door")
        elif kind == "camera":
            require(e.zoom == o.zoom and e.width == o.width, "camera sizes are kept by maps that keep sizes")
            require(list(e.nodes) == [9], "camera links")


TYPES = {c.TYPE_IDENTIFIER: c for c in vars(entity_types).values() if hasattr(c, "TYPE_IDENTIFIER")}


@cases(name=["r", "h", "vr"], etype=list(REGISTRY_NAMES))
def case_every_type(name, etype):
    """no registered type drops out of the map"""
    lv = Level()
    e = TYPES[etype]({"some": VariableInt(s("v", 32))}, u("rot", 16), 17, flag("fx"), flag("fy"), True)
    o = clone(e)
    i = lv.add_entity(dyadic("x", 16, 4, True), s("y", 14), e)
    lv.transform(matrix(name, (2, 1)))
    require(list(lv.entities) == [i], "entity id")
    tx, ty, g = lv.entities[i]
    ex, ey = pt(name, (2, 1), dyadic("x", 16, 4, True), s("y", 14))
    require(tx == ex and ty == ey, "entity position")
    require(type(g) is type(o) and g.etype == etype, "entity type")
    require(g.variables["some"] == o.variables["some"], "entity variables")
    check_orientation(o, g, name, "entity")


def fine():
    return [(dyadic("gx", 30, 16, True), dyadic("gy", 30, 16, True)), (dyadic("hx", 44, 30, True), 1.5), (1.0 / 1024, -3.0 / 4096), (0.1, -0.7), (1e-9, 123456.789), (-1.0 / 3, 100.0 / 7)]


@cases(name=NAMES, off=[(0, 0)], what=["prop", "entity", "back", "waypoint", "area", "key"], k=list(range(6)))
def case_fine(name, off, what, k):
    """positions that are not whole fractions of a pixel are only negated and exchanged"""
    x, y = fine()[k]
    lv = Level()
    if what == "entity":
        i = lv.add_entity(x, y, entity("plain", "e"))
        lv.transform(matrix(name, off))
        got = lv.entities[i][:2]
    elif what in ("prop", "back"):
        tgt = lv.backdrop if what == "back" else lv
        i = tgt.add_prop(4, x, y, some_prop("p", 1.5))
        lv.transform(matrix(name, off))
        got = tgt.props[i][1:3]
    else:
        e = entity({"waypoint": "ai", "area": "check", "key": "key"}[what], "e")
        if what == "waypoint":
            e.nodes.append((x, y))
        elif what == "area":
            e.trigger_areas.append((x, y))
        else:
            e.lastX, e.lastY = x, y
        lv.add_entity(0.0, 0.0, e)
        lv.transform(matrix(name, off))
        got = e.nodes[0] if what == "waypoint" else e.trigger_areas[0] if what == "area" else (e.lastX, e.lastY)
    ex, ey = lin(name, x, y)
    require(got[0] == ex, what + " x", got[0], ex)
    require(got[1] == ey, what + " y", got[1], ey)


@cases(name=NAMES, off=OFFS, given=[(), (0,), (1,)])
def case_defaults(name, off, given):
    """values an entity does not hold yet count as their defaults"""
    lv = Level()
    zone, key = entity("death", "z"), entity("key", "k")
    vals = [u("w", 12), u("h", 12)]
    if 0 in given:
        zone.width = vals[0]
        key.lastX = dyadic("kx", 12, 4, True)
    if 1 in given:
        zone.height = vals[1]
        key.lastY = dyadic("ky", 12, 4, True)
    w, h, kx, ky = zone.width, zone.height, key.lastX, key.lastY
    lv.add_entity(1.0, 2.0, zone)
    lv.add_entity(3.0, 4.0, key)
    lv.transform(matrix(name, off))
    if MAPS[name][1][1] != 0:
        w, h = h, w
    require(zone.width == w, "death zone width", zone.width, w)
    require(zone.height == h, "death zone height", zone.height, h)
    p = pt(name, off, kx, ky)
    require(key.lastX == p[0], "key x", key.lastX, p[0])
    require(key.lastY == p[1], "key y", key.lastY, p[1])


@cases(name=NAMES, off=OFFS, given=[(), (1,), (1, 2, 3, 4), (2, 4)])
def case_start(name, off, given):
    lv = Level()
    want = {}
    for p in range(1, 5):
        x, y = (0, 0)
        if p in given:
            x, y = s("x" + str(p), 14), s("y" + str(p), 14)
            pos = lv.start_position(p)
            pos.x, pos.y = x, y
        want[p] = pt(name, off, x, y)
    lv.name = b"my level"
    lv.sshot = b"shot"
    lv.transform(matrix(name, off))
    for p in range(1, 5):
        pos = lv.start_position(p)
        require(pos.x == want[p][0], "start x of player " + str(p), pos.x, want[p][0])
        require(pos.y == want[p][1], "start y of player " + str(p), pos.y, want[p][1])
    require(lv.name == b"my level" and lv.sshot == b"shot", "other level data is kept")


def scene():
    lv = Level()
    fill(lv, [(19, 0, 0), (19, -2, 5), (3, 7, -1)])
    fill(lv.backdrop, [(19, 1, 1), (19, -3, 0)])
    lv.add_prop(8, dyadic("px", 12, 4, True), s("py", 12), some_prop("p"))
    lv.backdrop.add_prop(9, s("bx", 12), 4.5, some_prop("q"))
    for k in ("plain", "ai", "check", "death", "key"):
        e = entity(k, k)
        if k == "ai":
            e.nodes.append((dyadic("nx", 12, 1, True), dyadic("ny", 12, 4, True)))
        elif k == "check":
            e.trigger_areas.append((dyadic("cx", 12, 1, True), dyadic("cy", 12, 4, True)))
        elif k == "death":
            e.width, e.height = u("dw", 10), u("dh", 10)
        elif k == "key":
            e.lastX, e.lastY = dyadic("kx", 12, 4, True), dyadic("ky", 12, 4, True)
        lv.add_entity(s("ex" + k, 12), dyadic("ey" + k, 12, 4, True), e)
    pos = lv.start_position(1)
    pos.x, pos.y = s("sx", 12), s("sy", 12)
    return lv


def same_level(a, b, where, orientation=True):
    require(len(a.tiles) == len(b.tiles), where + ": tiles")
    for k, t in a.tiles.items():
        o = b.tiles.get(k)
        require(o is not None, where + ": same tile squares", k)
        if o is not None:
            require(t.shape == o.shape and t.sprite_tile == o.sprite_tile, where + ": same tiles", k)
    require(list(a.props) == list(b.props), where + ": prop ids")
    for k, (la, x, y, p) in a.props.items():
        lb, x2, y2, q = b.props[k]
        require(la == lb, where + ": prop layer")
        require(x == x2, where + ": prop x", x, x2)
        require(y == y2, where + ": prop y", y, y2)
        require(p.rotation == q.rotation, where + ": prop rotation", p.rotation, q.rotation)
        require((p.flip_x != p.flip_y) == (q.flip_x != q.flip_y), where + ": prop flip")
        require(p.flip_x == q.flip_x and p.flip_y == q.flip_y, where + ": prop flips")
    require(list(a.entities) == list(b.entities), where + ": entity ids")
    for k, (x, y, p) in a.entities.items():
        x2, y2, q = b.entities[k]
        require(x == x2, where + ": entity x", x, x2)
        require(y == y2, where + ": entity y", y, y2)
        require(p.rotation == q.rotation, where + ": entity rotation", p.rotation, q.rotation)
        require(p.flip_x == q.flip_x and p.flip_y == q.flip_y, where + ": entity flips")
        require_same(p.variables, q.variables, where + ": entity data", loose=True)


@cases(a=NAMES, b=NAMES, off=[((0, 0), (0, 0)), ((3, -7), (-2, 11))])
def case_compose(a, b, off):
    """one map and then another equals their product"""
    one, two = scene(), scene()
    A, B = matrix(a, off[0]), matrix(b, off[1])
    one.transform(A)
    one.transform(B)
    two.transform(B * A)
    same_level(one, two, "composition")
    same_level(one.backdrop, two.backdrop, "backdrop composition")
    for p in (1, 2):
        require(one.start_position(p).x == two.start_position(p).x, "start x composes")
        require(one.start_position(p).y == two.start_position(p).y, "start y composes")


@cases(how=["h", "v", "r", "rr", "rrr", "-1", "-2", "5", "0", "default", "t"])
def case_shorthand(how):
    one, two = scene(), scene()
    if how == "h":
        one.flip_horizontal()
        want = matrix("h", (0, 0))
    elif how == "v":
        one.flip_vertical()
        want = matrix("v", (0, 0))
    elif how == "t":
        one.translate(48 * 5, -48 * 2)
        want = matrix("e", (5, -2))
    elif how == "default":
        one.rotate()
        want = matrix("r", (0, 0))
    else:
        n = {"r": 1, "rr": 2, "rrr": 3, "-1": -1, "-2": -2, "5": 5, "0": 0}[how]
        one.rotate(n)
        want = matrix(["e", "r", "rr", "rrr"][n % 4], (0, 0))
    two.transform(want)
    same_level(one, two, "shorthand")
    same_level(one.backdrop, two.backdrop, "shorthand in the backdrop")
    require(one.start_position().x == two.start_position().x and one.start_position().y == two.start_position().y, "start")


@cases(dx=[1, -1, 17, 48, 1000, -24.5], back=[False, True])
def case_translate_pixels(dx, back):
    """props, entities, starts move by any translation"""
    lv = Level()
    tgt = lv.backdrop if back else lv
    i = tgt.add_prop(3, dyadic("x", 16, 4, True), s("y", 14), some_prop("p"))
    j = lv.add_entity(s("ex", 14), dyadic("ey", 16, 4, True), entity("plain", "e"))
    lv.translate(dx, -2 * dx)
    la, tx, ty, p = tgt.props[i]
    require(tx == dyadic("x", 16, 4, True) + dx and ty == s("y", 14) - 2 * dx, "translated prop")
    require(p.rotation == u("p.rot", 16) and p.flip_x == flag("p.fx") and p.flip_y == flag("p.fy"), "orientation kept")
    tx, ty, e = lv.entities[j]
    require(tx == s("ex", 14) + dx and ty == dyadic("ey", 16, 4, True) - 2 * dx, "translated entity")
    if not isinstance(dx, float):
        require(lv.start_position(1).x == dx and lv.start_position(3).y == -2 * dx, "translated start")


@cases(name=NAMES, off=[(3, -7)])
def case_crowd(name, off):
    """a large level"""
    lv = Level()
    cells = [(19 if (x + y) % 5 else 6, x, y) for x in range(-9, 9) for y in range(-9, 9)] + [(19, 16 * i, -16 * i) for i in range(2, 40)]
    for i, c in enumerate(cells):
        lv.tiles[c] = Tile(TileShape(i % 21), sprite_tile=i)
    for i in range(80):
        lv.add_prop(i % 20, 7.0 * i, -3.0 * i, Prop(1, i * 97 % 65536, False, False, 1.0, 1, 1, i, 0), 200 + i)
        lv.add_entity(5.0 * i, 11.0 - i, Entity(None, i * 91 % 65536), 900 - i)
    lv.transform(matrix(name, off))
    check_tiles(lv.tiles, cells, list(range(len(cells))), name, off, "tiles")
    require(len(lv.props) == 80 and len(lv.entities) == 80, "no prop or entity lost or added")
    for i in range(80):
        require(lv.props[200 + i][1:3] == pt(name, off, 7.0 * i, -3.0 * i), "prop position", i)
        require(lv.props[200 + i][3].prop_index == i, "prop under its id", i)
        require(lv.entities[900 - i][:2] == pt(name, off, 5.0 * i, 11.0 - i), "entity position", i)
