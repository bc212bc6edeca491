"""C18: remapping and merging keep references right and levels separate."""

from dustmaker.entity import AIController, CameraNode, CustomScoreBook, EnemyKey, Entity, LevelEnd, StringList
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.variable import VariableArray, VariableInt, VariableString, VariableStruct, VariableUInt
from rules.common import any_tile, some_prop

RULE = (
    "Levels with abstract objects and every kind of entity reference (to present, absent and shared ids) are traced "
    "through remap_ids and merge; object identity tells which new id belongs to which object, so ids, references, kept "
    "attributes and (after changing either level) separation are compared with the copy taken before."
)

KINDS = ["camera", "ai", "end", "key", "book"]


def make(kind, refs, n):
    if kind == "camera":
        e = CameraNode({"own": VariableInt(s(n + "own", 32))}, u(n + "rot", 16))
        for r in refs:
            e.nodes.append(r)
    elif kind == "ai":
        e = AIController(None, u(n + "rot", 16))
        e.puppet = refs[0]
        e.nodes.append((1.0, 2.0))
    elif kind == "end":
        e = LevelEnd(None, u(n + "rot", 16))
        for r in refs:
            e.entities.append(r)
    elif kind == "key":
        e = EnemyKey(None, u(n + "rot", 16))
        e.door = refs[0]
        e.lastX = 5.0
    elif kind == "book":
        e = CustomScoreBook(None, u(n + "rot", 16))
        e.level_list = refs[0]
    else:
        e = Entity({"puppet_id": VariableUInt(105), "c": VariableInt(s(n + "own", 32))}, u(n + "rot", 16))
    return e


def refs_of(kind, e):
    if kind in ("camera",):
        return list(e.nodes)
    if kind == "end":
        return list(e.entities)
    if kind == "ai":
        return [e.puppet]
    if kind == "key":
        return [e.door]
    if kind == "book":
        return [e.level_list]
    return []


REFS = {"camera": ("c_node_ids",), "end": ("ent_list",), "ai": ("puppet_id",), "key": ("door",), "book": ("level_list_id",), "": ()}


def strip(kind, e):
    """copy of an entity without its references"""
    c = clone(e)
    if kind:
        for k in REFS[kind]:
            c.variables.pop(k, None)
    return c


def old_refs(kind, refs):
    return refs if kind in ("camera", "end") else refs[:1]


def ids_distinct(ids, lo, where):
    seen = set()
    for i in ids:
        require(i not in seen, where + ": ids are distinct", i)
        require(i >= lo, where + ": ids start at the requested minimum", i, lo)
        seen.add(i)


def find(table, obj):
    for k, v in table.items():
        if v[-1] is obj:
            return k
    return None


class Snapshot:
    def __init__(self, level):
        self.ents = [(i, v, v[2]) for i, v in level.entities.items()]
        self.props = [(i, v, v[3]) for i, v in level.props.items()]
        self.bprops = [(i, v, v[3]) for i, v in level.backdrop.props.items()]
        self.pcopies = [clone(p) for _, _, p in self.props]
        self.bcopies = [clone(p) for _, _, p in self.bprops]


def check_remapped(level, snap, floor, kinds, refs, where, total=None):
    """the objects of the snapshot under their new ids"""
    new = {}
    for i, v, e in snap.ents:
        k = find(level.entities, e)
        require(k is not None, where + ": entity is kept")
        if k is None:
            return
        new[i] = k
        require(level.entities[k][0] == v[0] and level.entities[k][1] == v[1], where + ": entity position")
    ids = list(new.values())
    for (i, v, p), c in zip(snap.props, snap.pcopies):
        k = find(level.props, p)
        require(k is not None, where + ": prop is kept")
        if k is None:
            return
        ids.append(k)
        require(level.props[k][:3] == v[:3], where + ": prop place")
        require_same(p, c, where + ": prop attributes")
    for (i, v, p), c in zip(snap.bprops, snap.bcopies):
        k = find(level.backdrop.props, p)
        require(k is not None, where + ": backdrop prop is kept")
        if k is None:
            return
        ids.append(k)
        require(level.backdrop.props[k][:3] == v[:3], where + ": backdrop prop place")
        require_same(p, c, where + ": backdrop prop attributes")
    ids_distinct(ids, floor, where)
    for (i, v, e), kind, rs in zip(snap.ents, kinds, refs):
        got = refs_of(kind, e)
        want = [new.get(r, 0) for r in old_refs(kind, rs)] if kind else []
        require(got == want, where + ": stored ids follow the entities", kind, want, got)
    return new


def build(spec, n="", backdrop=2, props=2, off=0):
    """spec: list of (id, kind, refs)"""
    level = Level()
    for j, (i, kind, rs) in enumerate(spec):
        level.add_entity(10.0 * j, -5.0, make(kind, rs, n + "e" + str(j)), i + off)
    for j in range(props):
        level.add_prop(j, 3.0 + j, 4.0, some_prop(n + "p" + str(j)), [120, 107, 100][j] + off)
    for j in range(backdrop):
        level.backdrop.add_prop(j, 3.0 + j, 4.0, some_prop(n + "b" + str(j)), [130, 106][j] + off)
    level.tiles[(19, 1, 2)] = any_tile(n + "t", TileShape.BIG_1)
    level.backdrop.tiles[(4, 1, 2)] = any_tile(n + "u", TileShape.FULL)
    return level


SPECS = [
    [],
    [(105, "", [])],
    [(105, "", []), (107, "camera", [105, 107, 106])],
    [(107, "camera", [105]), (105, "camera", [107])],
    [(300, "ai", [105]), (105, "", [])],
    [(105, "", []), (9, "ai", [0]), (8, "ai", [77])],
    [(5, "end", [105, 5, 6, 0, 105]), (105, "", []), (6, "key", [105])],
    [(101, "key", [100]), (100, "", []), (102, "key", [4242])],
    [(101, "book", [100]), (100, "", []), (102, "book", [120])],
    [(104, "camera", []), (103, "end", []), (102, "camera", [102])],
    [(101, "", []), (100, "", []), (102, "camera", [100, 101]), (103, "end", [101, 100, 103, 102])],
    [(100, "ai", [101]), (101, "key", [100]), (102, "book", [101]), (103, "camera", [100, 101, 102, 103, 104]), (104, "end", [103])],
]


@cases(spec=SPECS, floor=[1, 100, 101, 103, 500, 100000], backdrop=[0, 2], props=[0, 3])
def case_remap(spec, floor, backdrop, props):
    level = build(spec, "", backdrop, props)
    snap = Snapshot(level)
    kinds, refs = [k for _, k, _ in spec], [r for _, _, r in spec]
    keep = [strip(k, e) for k, (_, _, e) in zip(kinds, snap.ents)]
    tiles = clone(level.tiles)
    level.remap_ids(floor)
    check_remapped(level, snap, floor, kinds, refs, "remap")
    require(len(level.entities) == len(spec) and len(level.props) == props and len(level.backdrop.props) == backdrop, "number of objects")
    for k, (_, _, e), c in zip(kinds, snap.ents, keep):
        require_same(strip(k, e), c, "attributes of an entity")
    require_same(level.tiles, tiles, "tiles")


@cases(spec=SPECS)
def case_remap_default(spec):
    level = build(spec)
    snap = Snapshot(level)
    level.remap_ids()
    check_remapped(level, snap, 100, [k for _, k, _ in spec], [r for _, _, r in spec], "remap")


@cases(kind=KINDS, hit=[True, False])
def case_any_reference(kind, hit):
    """an abstract reference, to the entity or to nothing"""
    level = Level()
    i = 100 + u("target", 8)
    r = i if hit else u("ref", 8)
    if not hit:
        assume(r != 60)
    e = make(kind, [r, r], "e")
    level.add_entity(1.0, 2.0, e, 60)
    target = Entity()
    level.add_entity(3.0, 4.0, target, i)
    if not hit:
        assume(r < 60)
    level.remap_ids(2000)
    want = find(level.entities, target) if hit else 0
    for got in refs_of(kind, e):
        require(got == want, "stored id follows the entity", want, got)


def other_spec(which):
    return SPECS[which]


@cases(mine=[0, 2, 6, 11], theirs=[0, 1, 3, 7, 11], remap=[True, False])
def case_merge(mine, theirs, remap):
    a = build(SPECS[mine], "a", 2, 3, 0 if remap else 1000)
    b = build(SPECS[theirs], "b", 1, 2)
    if not remap:
        for _, _, e in a.entities.values():
            pass
    kinds, refs = [k for _, k, _ in SPECS[mine]], [r for _, _, r in SPECS[mine]]
    snap = Snapshot(a)
    keep = [strip(k, e) for k, (_, _, e) in zip(kinds, snap.ents)]
    kents, kprops, ktiles = clone(b.entities), clone(b.props), clone(b.tiles)
    kbprops, kbtiles = clone(b.backdrop.props), clone(b.backdrop.tiles)
    a.tiles[(19, 50, 2)] = any_tile("own", TileShape.HALF_A)
    a.backdrop.tiles[(4, 50, 2)] = any_tile("bown", TileShape.HALF_A)
    kown, kbown = clone(a.tiles[(19, 50, 2)]), clone(a.backdrop.tiles[(4, 50, 2)])
    ids = (list(a.entities), list(a.props), list(a.backdrop.props))
    a.merge(b, remap_ids=remap)
    # the other level is unchanged
    require_same(b.entities, kents, "entities of the other level", order=True)
    require_same(b.props, kprops, "props of the other level", order=True)
    require_same(b.tiles, ktiles, "tiles of the other level", order=True)
    require_same(b.backdrop.props, kbprops, "backdrop props of the other level", order=True)
    require_same(b.backdrop.tiles, kbtiles, "backdrop tiles of the other level", order=True)
    # nothing of either level is lost
    require(len(a.entities) == len(ids[0]) + len(kents), "number of entities", len(a.entities))
    require(len(a.props) == len(ids[1]) + len(kprops), "number of props", len(a.props))
    require(len(a.backdrop.props) == len(ids[2]) + len(kbprops), "number of backdrop props", len(a.backdrop.props))
    for i, v in kents.items():
        require(i in a.entities, "entity of the other level is added under its id", i)
        if i in a.entities:
            require_same(a.entities[i], v, "entity of the other level")
    for i, v in kprops.items():
        require(i in a.props, "prop of the other level is added under its id", i)
        if i in a.props:
            require_same(a.props[i], v, "prop of the other level")
    for i, v in kbprops.items():
        require(i in a.backdrop.props, "backdrop prop of the other level is added under its id", i)
        if i in a.backdrop.props:
            require_same(a.backdrop.props[i], v, "backdrop prop of the other level")
    for i, v in ktiles.items():
        require_same(a.tiles.get(i), v, "tile of the other level")
    for i, v in kbtiles.items():
        require_same(a.backdrop.tiles.get(i), v, "backdrop tile of the other level")
    require_same(a.tiles.get((19, 50, 2)), kown, "own tile")
    require_same(a.backdrop.tiles.get((4, 50, 2)), kbown, "own backdrop tile")
    for k, (_, _, e), c in zip(kinds, snap.ents, keep):
        require(find(a.entities, e) is not None, "own entity is kept")
        require_same(strip(k, e), c, "attributes of an own entity")
    if remap:
        check_remapped(a, snap, 0, kinds, refs, "merged level")
    else:
        for i, v, e in snap.ents:
            require(i in a.entities and a.entities[i][2] is e, "own entity keeps its id")
        for i, v, e in snap.props:
            require(i in a.props and a.props[i][3] is e, "own prop keeps its id")
        for i, v, e in snap.bprops:
            require(i in a.backdrop.props and a.backdrop.props[i][3] is e, "own backdrop prop keeps its id")


@cases(side=["mine", "theirs"], remap=[True, False], what=["tile", "btile", "prop", "bprop", "entity", "edge", "maps", "transform", "remap", "caps"])
def case_separate(side, remap, what):
    """afterwards a change of one level is not seen in the other"""
    a = build(SPECS[2], "a", 1, 1, 0 if remap else 1000)
    b = build(SPECS[11], "b", 1, 1)
    del a.tiles[(19, 1, 2)]
    a.tiles[(19, 9, 9)] = Tile()
    a.merge(b, remap_ids=remap)
    changed, other = (a, b) if side == "mine" else (b, a)
    keep = clone(other)
    if what == "tile":
        for t in changed.tiles.values():
            t.sprite_tile = 99
            t.shape = TileShape.HALF_D
    elif what == "btile":
        for t in changed.backdrop.tiles.values():
            t.sprite_tile = 99
            t.edge_data[1].solid = not t.edge_data[1].solid
    elif what == "edge":
        for t in changed.tiles.values():
            t.edge_data[0].solid = not t.edge_data[0].solid
            t.edge_data[2].caps = (True, True)
            t.edge_data[3] = None
    elif what == "prop":
        for v in changed.props.values():
            v[3].rotation = 5
            v[3].scale = 2.0
    elif what == "bprop":
        for v in changed.backdrop.props.values():
            v[3].rotation = 5
    elif what == "entity":
        for v in changed.entities.values():
            v[2].rotation = 9
            v[2].variables["new"] = VariableInt(1)
            for x in v[2].variables.values():
                if isinstance(x, VariableArray):
                    del x[:]
                else:
                    x.value = 12345
    elif what == "maps":
        changed.tiles.clear()
        changed.props.clear()
        changed.entities.clear()
        changed.backdrop.tiles.clear()
        changed.backdrop.props.clear()
        changed.variables["q"] = VariableInt(2)
    elif what == "transform":
        changed.rotate(1)
        changed.flip_horizontal()
    elif what == "remap":
        changed.remap_ids(7000)
    else:
        changed.calculate_edge_visibility()
        changed.calculate_edge_caps()
    require_same(other, keep, "the other level", order=True)


@cases(times=[2, 3])
def case_merge_repeatedly(times):
    """merging the same level several times"""
    a, b = Level(), build(SPECS[3], "b", 1, 2)
    for _ in range(times):
        a.merge(b)
    require(len(a.entities) == 2 * times, "number of entities", len(a.entities))
    require(len(a.props) == 2 * times, "number of props", len(a.props))
    require(len(a.backdrop.props) == times, "number of backdrop props", len(a.backdrop.props))
    objs = [v[2] for v in a.entities.values()]
    for i, o in enumerate(objs):
        for p in objs[:i]:
            require(o is not p, "merged entities are separate objects")
    for i, (x, y, e) in a.entities.items():
        for r in e.nodes:
            require(r in a.entities and r != i, "links lead to the partner of the same copy", r)
            if r in a.entities:
                require(list(a.entities[r][2].nodes) == [i], "links lead to the partner of the same copy", i)


@cases(n=[1, 3])
def case_merge_conflicting_tiles(n):
    """where both levels have a tile the other level's tile is kept"""
    a, b = Level(), Level()
    for i in range(n):
        a.tiles[(19, i, 0)] = any_tile("a" + str(i), TileShape.FULL)
        b.tiles[(19, i, 0)] = any_tile("b" + str(i), TileShape.BIG_2)
    keep = clone(b.tiles)
    a.merge(b)
    require(len(a.tiles) == n, "number of tiles")
    for k, t in keep.items():
        require_same(a.tiles[k], t, "tile of the other level")


PARTS = ["", "p", "e", "b", "t", "pe", "pb", "eb", "peb"]


def partial(parts, n):
    """a level having only some kinds of contents"""
    level = Level()
    if "p" in parts:
        level.add_prop(1, 2.0, 3.0, some_prop(n + "p"))
    if "e" in parts:
        level.add_entity(2.0, 3.0, Entity())
    if "b" in parts:
        level.backdrop.add_prop(1, 2.0, 3.0, some_prop(n + "b"))
    if "t" in parts:
        level.tiles[(19, len(n), 4)] = any_tile(n + "t", TileShape.FULL)
    return level


@cases(mine=PARTS, theirs=PARTS, backtiles=[False, True])
def case_merge_partial(mine, theirs, backtiles):
    """levels that lack some kinds of contents keep all they have"""
    a, b = partial(mine, "a"), partial(theirs, "bb")
    if backtiles:
        a.backdrop.tiles[(4, 1, 2)] = any_tile("x", TileShape.FULL)
        b.backdrop.tiles[(4, 2, 2)] = any_tile("y", TileShape.FULL)
    pa, ea, ba = list(a.props.values()), list(a.entities.values()), list(a.backdrop.props.values())
    pb, eb, bb = clone(list(b.props.values())), clone(list(b.entities.values())), clone(list(b.backdrop.props.values()))
    a.merge(b)
    require(len(a.props) == len(pa) + len(pb), "number of props", len(a.props))
    require(len(a.entities) == len(ea) + len(eb), "number of entities", len(a.entities))
    require(len(a.backdrop.props) == len(ba) + len(bb), "number of backdrop props", len(a.backdrop.props))
    require(len(a.tiles) == ("t" in mine) + ("t" in theirs), "number of tiles", len(a.tiles))
    require(len(a.backdrop.tiles) == (2 if backtiles else 0), "number of backdrop tiles", len(a.backdrop.tiles))
    for v in pa:
        require(find(a.props, v[3]) is not None, "own prop is kept")
    for v in ea:
        require(find(a.entities, v[2]) is not None, "own entity is kept")
    for v in ba:
        require(find(a.backdrop.props, v[3]) is not None, "own backdrop prop is kept")
    ids_distinct(list(a.props) + list(a.entities) + list(a.backdrop.props), 100, "merged level")
    require(len(b.props) == len(pb) and len(b.entities) == len(eb) and len(b.backdrop.props) == len(bb), "the other level is unchanged")


@cases(parts=PARTS, floor=[1, 100, 700])
def case_remap_partial(parts, floor):
    a = partial(parts, "a")
    pa, ea, ba = list(a.props.values()), list(a.entities.values()), list(a.backdrop.props.values())
    a.remap_ids(floor)
    for v in pa:
        require(find(a.props, v[3]) is not None, "prop is kept")
    for v in ea:
        require(find(a.entities, v[2]) is not None, "entity is kept")
    for v in ba:
        require(find(a.backdrop.props, v[3]) is not None, "backdrop prop is kept")
    ids = list(a.props) + list(a.entities) + list(a.backdrop.props)
    require(len(ids) == len(pa) + len(ea) + len(ba), "number of objects")
    ids_distinct(ids, floor, "remapped level")


@cases(n=[30, 150], floor=[1, 100, 160, 5000])
def case_remap_crowd(n, floor):
    """many objects, every second entity names others"""
    level = Level()
    ids = [100 + (i * 37) % (2 * n + 1) for i in range(n)]
    kinds, refs = [], []
    for i in range(n):
        kind = ["", "camera", "", "end", "key", "ai", "book"][i % 7]
        r = [] if kind == "" else [ids[(i * 11 + 3) % n]] if kind in ("key", "ai", "book") else [ids[(i + k * 5) % n] for k in range(i % 4)]
        kinds.append(kind)
        refs.append(r)
        level.add_entity(1.0 * i, -5.0, make(kind, r, "e"), ids[i])
    for i in range(n):
        level.add_prop(i % 20, 1.0 * i, 2.0, some_prop("p"), ids[i] + (i % 2) * 1000)
        level.backdrop.add_prop(i % 20, 1.0 * i, 3.0, some_prop("q"), ids[i] + (i % 3) * 1000)
    snap = Snapshot(level)
    level.remap_ids(floor)
    check_remapped(level, snap, floor, kinds, refs, "remap")
    require(len(level.entities) == n and len(level.props) == n and len(level.backdrop.props) == n, "number of objects")


@cases(n=[40, 150], remap=[True, False])
def case_merge_crowd(n, remap):
    a, b = Level(), Level()
    for level, base in ((a, 0 if remap else 2000), (b, 0)):
        for i in range(n):
            level.add_entity(1.0 * i, 1.0 if level is a else 2.0, Entity(), 100 + base + i * 3)
            level.add_prop(i % 20, 1.0 * i, 1.0 if level is a else 2.0, some_prop("p"), 100 + base + i * 2)
            level.tiles[(19, i, 5 if level is a else 6)] = Tile(TileShape.FULL)
    a.merge(b, remap_ids=remap)
    require(len(a.entities) == 2 * n and len(a.props) == 2 * n and len(a.tiles) == 2 * n, "number of objects", len(a.entities), len(a.props))
    require(sorted((y, x) for x, y, e in a.entities.values()) == [(k + 1.0, 1.0 * i) for k in range(2) for i in range(n)], "entities of both levels")
    require(sorted((y, x) for la, x, y, p in a.props.values()) == [(k + 1.0, 1.0 * i) for k in range(2) for i in range(n)], "props of both levels")
    for i in b.entities:
        require(i in a.entities and a.entities[i][1] == 2.0, "entity of the other level under its id", i)
