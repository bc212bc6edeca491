"""C08: props survive a level write/read unchanged and in place."""

from dustmaker.entity import Entity
from dustmaker.level import Level, LevelType
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileShape
from rules.common import load, prop_same, save, some_prop

RULE = (
    "Props with abstract id, layer, sublayer, rotation, flips, set, group, index, palette and whole-pixel position "
    "(both signs) are traced through write_level and read_level; they must come back under the same id with the same "
    "fields, for every scale step of the format, level and backdrop, and every company (other props, tiles, entities) "
    "in the same segment."
)

STEPS = list(range(-32, 24))


def check(level, ids, want, where, backdrop=False, scale=True):
    back = load(save(level))
    part = back.backdrop if backdrop else back
    other = back if backdrop else back.backdrop
    require(len(other.props) == 0, where + ": no prop in the other part")
    require(len(part.props) == len(ids), where + ": number of props", len(part.props))
    for i, w in zip(ids, want):
        got = part.props.get(i)
        require(got is not None, where + ": prop present under its id", i, list(part.props))
        if got is not None:
            require(got[0] == w[0], where + ": layer", w[0], got[0])
            require(got[1] == w[1], where + ": x position", w[1], got[1])
            require(got[2] == w[2], where + ": y position", w[2], got[2])
            prop_same(w[3], got[3], where, scale)
    return back


@cases(backdrop=[False, True], layer=[0, 5, 19, 20, 255])
def case_fields(backdrop, layer):
    level = Level()
    part = level.backdrop if backdrop else level
    p = some_prop("p")
    keep = clone(p)
    i = u("id", 31, 1)
    part.add_prop(layer, 10.0, -20.0, p, i)
    check(level, [i], [(layer, 10.0, -20.0, keep)], "prop", backdrop)


@cases(step=STEPS, kind=[None, LevelType.DUSTMOD, LevelType.NORMAL])
def case_scale(step, kind):
    level = Level()
    if kind is not None:
        level.level_type = kind
    p = some_prop("p", 50.0 ** (step / 24.0))
    keep = clone(p)
    level.add_prop(3, 1000.0, 2000.0, p, 7)
    check(level, [7], [(3, 1000.0, 2000.0, keep)], "prop")


@cases(backdrop=[False, True], up=[False, True], spread=[1, 800])
def case_all_scales(backdrop, up, spread):
    """every size in one level"""
    level = Level()
    part = level.backdrop if backdrop else level
    want, ids = [], []
    for i, step in enumerate(STEPS if up else STEPS[::-1]):
        p = Prop(1, 2, False, True, 50.0 ** (step / 24.0), 3, 4, 5, 6)
        want.append((3, 1.0 * spread * i, 7.0, clone(p)))
        ids.append(part.add_prop(3, 1.0 * spread * i, 7.0, p))
    check(level, ids, want, "prop", backdrop)


TWINS = [("layer_sub", 2), ("rotation", 3), ("rotation", 258), ("flip_x", True), ("flip_y", False), ("prop_set", 4), ("prop_group", 5), ("prop_group", 260), ("prop_index", 6), ("palette", 7)]


@cases(backdrop=[False, True], spread=[0, 800])
def case_twins(backdrop, spread):
    """props that differ in a single field each"""
    level = Level()
    part = level.backdrop if backdrop else level
    want, ids = [], []
    for i, (k, v) in enumerate([("layer_sub", 1)] + TWINS):
        p = Prop(1, 2, False, True, 1.0, 3, 4, 5, 6)
        setattr(p, k, v)
        want.append((3, 1.0 * spread * i, 7.0, clone(p)))
        ids.append(part.add_prop(3, 1.0 * spread * i, 7.0, p))
    check(level, ids, want, "twins", backdrop)


@cases(scale=[0.01, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1.1, 1.3, 2.0, 3.0, 7.0, 10.0, 30.0], backdrop=[False, True])
def case_scale_quantised(scale, backdrop):
    """other scales become the nearest step (in the logarithm)"""
    level = Level()
    part = level.backdrop if backdrop else level
    p = some_prop("p", scale)
    keep = clone(p)
    part.add_prop(3, -5.0, 6.0, p, 7)
    back = check(level, [7], [(3, -5.0, 6.0, keep)], "prop", backdrop, False)
    part = back.backdrop if backdrop else back
    got = part.props[7][3].scale
    step = 50.0 ** (1 / 48.0)
    require(got < scale * step * 1.0001 and scale < got * step * 1.0001, "scale within half a step", scale, got)


XS = [0.0, 1.0, 47.0, 48.0, 767.0, 768.0, 12287.0, 12288.0, 100000.0, 134217727.0]


@cases(x=XS, y=[0.0, 1.0, 800.0], sx=[1, -1], sy=[1, -1], backdrop=[False, True])
def case_place(x, y, sx, sy, backdrop):
    level = Level()
    part = level.backdrop if backdrop else level
    p = some_prop("p")
    keep = clone(p)
    part.add_prop(12, x * sx, y * sy, p, 101)
    check(level, [101], [(12, x * sx, y * sy, keep)], "prop", backdrop)


@cases(axis=["x", "y"], bits=[12, 22, 27], backdrop=[False, True], as_int=[False, True])
def case_place_any(axis, bits, backdrop, as_int):
    """one coordinate ranges over all signed whole numbers of a width"""
    level = Level()
    part = level.backdrop if backdrop else level
    p = some_prop("p")
    keep = clone(p)
    c = s("c", bits)
    pos = (c if as_int else float(c), 30) if axis == "x" else (-30, c if as_int else float(c))
    part.add_prop(12, pos[0], pos[1], p, 101)
    check(level, [101], [(12, pos[0], pos[1], keep)], "prop", backdrop)


@cases(x=[0.25, 0.5, 0.75, 10.5, 99.9], sg=[1, -1])
def case_fraction(x, sg):
    """fractions are dropped, never a whole pixel"""
    level = Level()
    level.add_prop(12, x * sg, -x * sg, some_prop("p"), 101)
    got = load(save(level)).props[101]
    require(abs(got[1] - x * sg) < 1 and abs(got[1]) <= x, "x position without its fraction", x * sg, got[1])
    require(abs(got[2] + x * sg) < 1 and abs(got[2]) <= x, "y position without its fraction", -x * sg, got[2])


def company(level, kind):
    if "tile" in kind:
        level.tiles[(19, 0, 0)] = Tile(TileShape.FULL, sprite_tile=u("ct", 8))
        level.tiles[(5, 2, 1)] = Tile(TileShape.HALF_A)
    if "dust" in kind:
        t = Tile(TileShape.FULL)
        t.edge_data[0].filth_sprite_set = t.sprite_set
        level.tiles[(19, 3, 3)] = t
    if "entity" in kind:
        e = Entity(rotation=u("cr", 16))
        e.etype = "some_thing"
        level.add_entity(5.0, 6.0, e, 1000)
    if "named" in kind:
        e = Entity()
        e.etype = "z_other"
        level.add_entity(7.0, 8.0, e, 1001)


@cases(kind=["", "tile", "dust", "entity", "named", "tile dust entity named"], n=[1, 2, 5], backdrop=[False, True])
def case_company(kind, n, backdrop):
    level = Level()
    company(level, kind)
    part = level.backdrop if backdrop else level
    ids, want = [], []
    for i in range(n):
        p = some_prop("p" + str(i))
        pid = 200 - 3 * i
        w = (i + 1, 5.0 * i, -7.0 * i if i % 2 else 7.0 * i, clone(p))
        part.add_prop(w[0], w[1], w[2], p, pid)
        ids.append(pid)
        want.append(w)
    check(level, ids, want, "props", backdrop)


SPOTS = [(10.0, 10.0), (800.0, 10.0), (10.0, 800.0), (-10.0, 10.0), (-800.0, -800.0), (12300.0, 0.0), (0.0, -12300.0), (48.0, 48.0)]


@cases(a=SPOTS, b=SPOTS, backdrop=[False, True])
def case_two(a, b, backdrop):
    """two props in the same or different segments and regions"""
    level = Level()
    part = level.backdrop if backdrop else level
    p, q = some_prop("p"), some_prop("q", 2.0 ** 0)
    kp, kq = clone(p), clone(q)
    part.add_prop(1, a[0], a[1], p, 101)
    part.add_prop(2, b[0], b[1], q, 55)
    check(level, [101, 55], [(1, a[0], a[1], kp), (2, b[0], b[1], kq)], "two props", backdrop)


@cases(n=[1])
def case_both_parts(n):
    level = Level()
    p, q = some_prop("p"), some_prop("q")
    kp, kq = clone(p), clone(q)
    level.add_prop(1, 100.0, 100.0, p, 101)
    level.backdrop.add_prop(2, 100.0, 100.0, q, 101)
    back = load(save(level))
    require(list(back.props) == [101] and list(back.backdrop.props) == [101], "ids of both parts")
    prop_same(kp, back.props[101][3], "level prop")
    prop_same(kq, back.backdrop.props[101][3], "backdrop prop")
    require(back.props[101][:3] == (1, 100.0, 100.0), "level prop place")
    require(back.backdrop.props[101][:3] == (2, 100.0, 100.0), "backdrop prop place")


@cases(n=[40, 257, 300], backdrop=[False, True], spread=[1, 97])
def case_crowd(n, backdrop, spread):
    """many props in one place and in many places"""
    level = Level()
    part = level.backdrop if backdrop else level
    for i in range(n):
        p = Prop(i % 256, i * 97 % 65536, i % 2 == 0, i % 3 == 0, 1.0, i % 256, i % 4096, i * 5 % 4096, i * 3 % 256)
        if i % 50 == 13:
            p = some_prop("p" + str(i))
        part.add_prop(i % 21, float(i * spread % 3000), float(-(i * 7 * spread % 2900)), p, 5000 - 3 * i)
    keep = clone(part.props)
    back = load(save(level))
    got = back.backdrop.props if backdrop else back.props
    require(len(got) == n, "number of props", len(got))
    for i in keep:
        require(i in got, "prop present", i)
        if i in got:
            require(got[i][:3] == keep[i][:3], "prop place", i)
            prop_same(keep[i][3], got[i][3], "prop")


@cases(back=[False, True], how=["fields", "scale", "prop", "moved", "layer", "swapped", "removed", "shared", "other level", "reader"])
def case_edited(back, how):
    """what is written is what the level holds then, whatever was written or read before"""
    level = Level()
    part = level.backdrop if back else level
    part.add_prop(3, 10.0, 20.0, some_prop("a"), 101)
    part.add_prop(4, 15.0, -20.0, some_prop("b"), 77)
    part.add_prop(5, 9000.0, 20.0, some_prop("c"), 300)
    first = save(level)
    load(first)
    la, x, y, p = part.props[101]
    if how == "fields":
        p.layer_sub, p.rotation, p.flip_x, p.flip_y, p.prop_set, p.prop_group, p.prop_index, p.palette = u("s", 8), u("r", 16), flag("x"), flag("y"), u("ps", 8), u("pg", 12), u("pi", 12), u("pp", 8)
    elif how == "scale":
        p.scale = 50.0**0.25
    elif how == "prop":
        part.props[101] = (la, x, y, some_prop("n"))
    elif how == "moved":
        part.props[101] = (la, 4000.0, -77.0, p)
    elif how == "layer":
        part.props[101] = (u("la", 8), x, y, p)
    elif how == "swapped":
        part.props[101], part.props[300] = part.props[300], part.props[101]
    elif how == "removed":
        del part.props[77]
    elif how == "shared":
        part.props[500] = (7, 30.0, 40.0, p)
        part.add_prop(2, x, y, p, 499)
    elif how == "other level":
        level = Level()
        part = level.backdrop if back else level
        part.add_prop(6, 10.0, 20.0, some_prop("o"), 101)
    elif how == "reader":
        level = load(first)
        part = level.backdrop if back else level
        la, x, y, p = part.props[101]
        p.rotation, p.prop_index = u("r", 16), u("pi", 12)
        part.props[77] = (1, 2.0, 3.0, part.props[77][3])
    ids = list(part.props)
    check(level, ids, [clone(part.props[i]) for i in ids], "edited prop", back)
