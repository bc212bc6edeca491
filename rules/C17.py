"""C17: prop and entity ids never collide and never get overwritten."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.exceptions import LevelException
from dustmaker.level import Level
from dustmaker.prop import Prop
from rules.common import load, save, some_prop

RULE = (
    "All sequences of three operations (adding props/entities to level or backdrop with and without "
    "id, maximum-id computation, writing, reading, merging) are traced with abstract ids; after every step the ids handed "
    "out must be new and larger than all ids given before, existing objects must be untouched and the maximum id must "
    "bound every id in use."
)

OPS = ["prop", "prop#", "bprop", "bprop#", "ent", "ent#", "max", "max!", "save", "cycle", "merge", "bigent"]
IDS = [1, 99, 100, 101, 102, 250, 70000, 2**31 - 5]


def used(level):
    return list(level.props) + list(level.entities) + list(level.backdrop.props)


def check_max(level, given, reset):
    got = level.calculate_max_id(reset=reset)
    require(got >= 100, "maximum id is at least 100", got)
    for i in used(level):
        require(got >= i, "maximum id bounds every id in use", got, i)
    return got


def step(op, level, given, n, pick):
    """performs one operation; given: ids handed in or out so far"""
    name = "s" + str(n)
    if op == "max":
        check_max(level, given, False)
        return level, given
    if op == "max!":
        check_max(level, given, True)
        return level, given
    if op == "save":
        save(level)
        return level, given
    if op == "cycle":
        back = load(save(level))
        require(len(used(back)) == len(used(level)), "objects after reading")
        return back, given
    if op == "merge":
        other = Level()
        other.add_prop(1, 2.0, 3.0, some_prop("o" + name))
        other.add_entity(2.0, 3.0, Entity(), pick)
        other.backdrop.add_prop(1, 2.0, 3.0, some_prop("q" + name))
        count = len(used(level))
        level.merge(other)
        ids = used(level)
        require(len(ids) == count + 3, "merging keeps every object", len(ids), count)
        return level, ids
    kind = op.strip("#")
    where = level.backdrop if kind == "bprop" else level
    table = where.entities if kind in ("ent", "bigent") else where.props
    before = dict(table)
    want = pick if op.endswith("#") else 3000000 if op == "bigent" else None
    got = None
    try:
        if kind in ("ent", "bigent"):
            got = where.add_entity(1.0 + n, 2.0, Entity(), want)
        else:
            got = where.add_prop(n, 1.0, 2.0, some_prop("p" + name), want)
    except LevelException:
        require(want is not None, "adding without an id is not refused")
        require(want in before, "an unused id is not refused", want)
        got = None
    if got is not None:
        if want is not None:
            require(got == want, "the requested id is used", want, got)
            require(want not in before, "a used id is refused", want)
        else:
            require(got >= 100, "ids start at 100", got)
            for i in given:
                require(got > i, "a new id is larger than every id given before", got, i)
        require(len(table) == len(before) + 1, "one object more")
        require(got in table, "the object is stored under the returned id")
        given = given + [got]
    else:
        require(len(table) == len(before), "nothing added")
    for k, v in before.items():
        require(k in table, "existing objects stay", k)
        if k in table:
            require(table[k] is v, "existing objects stay the same", k)
    return level, given


@cases(first=OPS, second=OPS, third=["prop", "ent", "bprop", "prop#", "ent#", "bprop#", "max"])
def case_three(first, second, third):
    level, given = Level(), []
    for n, op in enumerate([first, second, third]):
        level, given = step(op, level, given, n, 101)
    check_max(level, given, False)
    level, given = step("ent", level, given, 8, 0)
    level, given = step("prop", level, given, 9, 0)
    check_max(level, given, True)
    level, given = step("bprop", level, given, 10, 0)


@cases(i=IDS, first=["prop#", "ent#", "bprop#", "merge"], second=OPS, third=["ent#", "prop", "bprop", "cycle"])
def case_ids(i, first, second, third):
    level, given = Level(), []
    for n, op in enumerate([first, second, third]):
        level, given = step(op, level, given, n, i)
    level, given = step("prop", level, given, 8, 0)
    level, given = step("ent", level, given, 9, 0)
    check_max(level, given, True)


@cases(first=["prop#", "ent#", "bprop#"], second=["", "max", "max!", "save"], third=["prop", "ent", "bprop"])
def case_any_id(first, second, third):
    """an abstract id"""
    i = u("id", 31)
    level, given = step(first, Level(), [], 0, i)
    if second:
        level, given = step(second, level, given, 1, i)
    level, given = step(third, level, given, 2, i)
    check_max(level, given, False)
    require(level.calculate_max_id(reset=False) >= i, "maximum id bounds the abstract id")


@cases(order=["ab", "ba"], first=["prop#", "ent#", "bprop#"], second=["prop#", "ent#", "bprop#"], reset=[False, True])
def case_two_any_ids(order, first, second, reset):
    a, b = 96 + u("a", 4), 96 + u("b", 4)
    assume(a < b if order == "ab" else b < a)
    level, given = step(first, Level(), [], 0, a)
    level, given = step(second, level, given, 1, b)
    check_max(level, given, reset)
    level, given = step("ent", level, given, 2, 0)
    level, given = step("prop", level, given, 3, 0)
    level, given = step("bprop", level, given, 4, 0)


@cases(kind=["prop#", "ent#", "bprop#"])
def case_same_any_id(kind):
    """the same abstract id twice"""
    a = u("a", 31)
    level, given = step(kind, Level(), [], 0, a)
    n = len(used(level))
    level, given = step(kind, level, given, 1, a)
    require(len(used(level)) == n, "the second one is refused")
    level, given = step("prop", level, given, 2, 0)


@cases(kinds=[("prop#", "ent#"), ("ent#", "prop#"), ("prop#", "bprop#"), ("bprop#", "prop#"), ("bprop#", "ent#")])
def case_other_kind(kinds):
    """a prop and an entity may share an id"""
    a = u("a", 31)
    level, given = step(kinds[0], Level(), [], 0, a)
    level, given = step(kinds[1], level, given, 1, a)
    require(len(used(level)) == 2, "both are stored")
    level, given = step("prop", level, given, 2, 0)
    level, given = step("ent", level, given, 3, 0)


@cases(floor=[5, 100, 101, 4000], content=["", "prop#", "ent#", "bprop#"], pick=[90, 150, 9000])
def case_read_floor(floor, content, pick):
    """a file whose allocation floor is below or above the ids it contains"""
    level, given = Level(), []
    if content:
        level, given = step(content, level, given, 0, pick)
    data = save(level)
    data = data[:28] + floor.to_bytes(4, "little") + data[32:]
    back = load(data)
    ids = used(back)
    require(len(ids) == (1 if content else 0), "objects after reading")
    for n, k in enumerate(["prop", "ent", "bprop"]):
        back, ids = step(k, back, ids, n + 1, 0) if floor >= 100 else relaxed(back, k, ids)


def relaxed(level, kind, given):
    """floors below 100 come from foreign files: only uniqueness counts"""
    if kind == "ent":
        got = level.add_entity(1.0, 2.0, Entity())
    elif kind == "prop":
        got = level.add_prop(1, 1.0, 2.0, some_prop("r"))
    else:
        got = level.backdrop.add_prop(1, 1.0, 2.0, some_prop("r"))
    for i in given:
        require(got > i, "a new id is larger than every id in the file", got, i)
    return level, given + [got]


@cases(mine=[[], [100], [100, 101, 102], [5], [300, 4]], theirs=[[], [100], [101, 250], [7], [100, 101, 102, 103]], remap=[True, False], backdrop=[False, True])
def case_merge_allocator(mine, theirs, remap, backdrop):
    a, b = Level(), Level()
    if not remap:
        mine = [i + 1000 for i in mine]
    for level, ids in ((a, mine), (b, theirs)):
        for n, i in enumerate(ids):
            if backdrop and n % 2:
                level.backdrop.add_prop(1, 1.0, 2.0, some_prop("p"), i)
            elif n % 3 == 0:
                level.add_entity(1.0, 2.0, Entity(), i)
            else:
                level.add_prop(1, 1.0, 2.0, some_prop("p"), i)
    a.merge(b, remap_ids=remap)
    ids = used(a)
    require(len(ids) == len(mine) + len(theirs), "every object is kept", len(ids))
    theirs_now = used(b)
    require(len(theirs_now) == len(theirs), "the other level keeps its objects")
    for n, k in enumerate(["prop", "ent", "bprop", "prop"]):
        a, ids = step(k, a, ids, n, 0)
        b, theirs_now = step(k, b, theirs_now, n, 0)


@cases(ids=[[], [100], [300, 5], [150, 151, 152]], floor=[1, 100, 101, 500, 10000])
def case_remap_allocator(ids, floor):
    level = Level()
    for n, i in enumerate(ids):
        if n % 3 == 0:
            level.backdrop.add_prop(1, 1.0, 2.0, some_prop("p"), i)
        elif n % 3 == 1:
            level.add_entity(1.0, 2.0, Entity(), i)
        else:
            level.add_prop(1, 1.0, 2.0, some_prop("p"), i)
    level.remap_ids(floor)
    now = used(level)
    require(len(now) == len(ids), "every object is kept")
    for n, k in enumerate(["prop", "ent", "bprop"]):
        level, now = relaxed(level, k, now)


@cases(ids=[[100, 103], [7], [101], []], reset=[False, True])
def case_gap(ids, reset):
    """ids handed out after a removal are still new"""
    level = Level()
    for i in ids:
        level.add_entity(1.0, 2.0, Entity(), i)
    got = level.add_prop(1, 1.0, 2.0, some_prop("p"))
    del level.props[got]
    if reset:
        check_max(level, ids, False)
    again = level.add_entity(1.0, 2.0, Entity())
    require(again > got, "an id is not handed out twice", again, got)
    for i in ids:
        require(again > i, "a new id is larger than every id given before", again, i)


@cases(kind=["prop", "ent", "bprop"], how=["same object", "equal copy", "moved"], i=[100, 150, None])
def case_add_again(kind, how, i):
    """adding an object that is already there under the same id is refused as well"""
    level = Level()
    where = level.backdrop if kind == "bprop" else level
    table = where.entities if kind == "ent" else where.props
    obj = Entity() if kind == "ent" else some_prop("p")
    i = where.add_entity(1.0, 2.0, obj, i) if kind == "ent" else where.add_prop(3, 1.0, 2.0, obj, i)
    before = table[i]
    again = clone(obj) if how == "equal copy" else obj
    x = 7.0 if how == "moved" else 1.0
    refused = False
    try:
        if kind == "ent":
            where.add_entity(x, 2.0, again, i)
        else:
            where.add_prop(3, x, 2.0, again, i)
    except LevelException:
        refused = True
    require(refused, "a used id is refused")
    require(len(table) == 1 and table[i] is before, "the existing object is untouched")
    require(before[-1] is obj, "the existing object is untouched")


@cases(n=[60, 300], start=[None, 5, 130], mixed=[False, True])
def case_crowd(n, start, mixed):
    """many additions one after another"""
    level = Level()
    top = 99
    if start is not None:
        level.add_entity(0.0, 0.0, Entity(), start)
        top = max(top, start)
    count = 0
    for i in range(n):
        want = None
        if mixed and i % 7 == 3:
            want = top + 1 + i % 3
        if i % 3 == 0:
            got = level.add_prop(1, 2.0, 3.0, Prop(1, 0, False, False, 1.0, 1, 1, 1, 1), want)
        elif i % 3 == 1:
            got = level.add_entity(2.0, 3.0, Entity(), want)
        else:
            got = level.backdrop.add_prop(1, 2.0, 3.0, Prop(1, 0, False, False, 1.0, 1, 1, 1, 1), want)
        require(got > top, "a new id is larger than every id given before", got, top)
        require(want is None or got == want, "the requested id is used")
        top = max(top, got)
        count += 1
        if mixed and i % 50 == 49:
            require(level.calculate_max_id(reset=False) >= top, "maximum id bounds every id in use")
    require(len(level.props) + len(level.entities) + len(level.backdrop.props) == count + (start is not None), "objects stored")


@cases(seed=range(600 if THOROUGH else 120))
def case_program(seed):
    """longer histories"""
    x = seed * 7919 + 17
    level, given = Level(), []
    for n in range(9):
        x = (x * 1103515245 + 12345) % 2147483648
        op = OPS[(x >> 12) % len(OPS)]
        x = (x * 1103515245 + 12345) % 2147483648
        level, given = step(op, level, given, n, IDS[(x >> 12) % (len(IDS) - 1)] + (x >> 16) % 3)
    check_max(level, given, False)
    level, given = step("ent", level, given, 10, 0)
    level, given = step("bprop", level, given, 11, 0)
