"""C30: save conversion keeps every known score and book entry."""

import io
import sys

from dustmaker.cmd.common import run_utility
from dustmaker.cmd.main import main
from dustmaker.cmd.save_convert import SaveConvert, migrate_stats
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import (
    VariableArray,
    VariableBool,
    VariableFloat,
    VariableInt,
    VariableString,
    VariableStruct,
    VariableUInt,
)
from rules.C27 import same

RULE = (
    "Saves with every known level alone, every pair drawn from the four door kinds in both orders, all 64 together in several "
    "orders, unknown levels in between, repeated levels, with and without each book, score list and red key count, all with "
    "abstract scores, are traced through migrate_stats and through the tool (files and argument parsing modelled); the result "
    "is compared entry by entry with the documented conversion."
)

# doors in game order: four levels behind each kind, per hub: free, wood, silver, gold
ORDER = (
    "downhill shadedgrove dahlia fields momentum fireflyforest tunnels momentum2 suntemple ascent summit grasscave "
    "den autumnforest garden hyperdifficult atrium secretpassage alcoves mezzanine cave cliffsidecaves library courtyard "
    "precarious treasureroom arena ramparts moontemple observatory parapets brimstone vacantlot sprawl development abandoned "
    "park boxes chemworld factory tunnel basement scaffold cityrun clocktower concretetemple alley hideout "
    "control ferrofluid titan satellite vat venom security mary wiringfixed containment orb pod mary2 coretemple abyss dome"
).split()
BOOKS = ["citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook", "virtualbookk"]
UNKNOWN = ["", "Downhill", "downhill ", "downhil", "downhills", "custom-123", "tutorial0", "mary3", "momentum1", "dome\0"]


def door(name):
    """0 free, 1 wood, 2 silver, 3 gold, None unknown"""
    return ORDER.index(name) // 4 % 4 if name in ORDER else None


def score(name, n):
    return VariableStruct(
        {
            "file_name": VariableString(name.encode()),
            "combo": VariableInt(s(n + ".combo", 32)),
            "time": VariableFloat(real(n + ".time", 0.0, 1e6)),
            "thorough": VariableFloat(real(n + ".thorough", 0.0, 1e6)),
            "best_time": VariableFloat(real(n + ".best", 0.0, 1e6)),
            "overall": VariableInt(s(n + ".overall", 32)),
            "extra": VariableUInt(u(n + ".extra", 32)),
        }
    )


def save(names, red=None, books=None, scores=True):
    out = {"junk": VariableUInt(u("junk", 32)), "k_other": VariableString(b"x")}
    for b in BOOKS if books is None else books:
        out[b] = VariableArray(VariableString, [VariableString(sbytes(b, 2)), VariableString(b"end")])
    if scores:
        out["score"] = VariableArray(VariableStruct, [score(k, "s" + str(i)) for i, k in enumerate(names)])
    if red is not None:
        out["red_used"] = VariableInt(red)
    return out


def single(new, key, cls, value):
    require(key in new, "entry " + key)
    v = new[key]
    require(type(v) is VariableArray and v.element_type is cls and len(v.value[1]) == 1, "form of " + key)
    require(type(v.value[1][0]) is cls and v.value[1][0].value == value, "value of " + key, v.value[1][0].value, value)


def check(new, old, names, red, exact=True):
    books = [b for b in BOOKS if b in old]
    want = set(books) | {"k_score", "k_root", "k_wood_used", "k_silver_used", "k_gold_used", "k_red_used", "k_ngplus"}
    require(set(new) == want, "entries of the new save", list(new))
    for b in books:
        same(old[b], new[b], "book " + b)
    known = [(k, i) for i, k in enumerate(names) if door(k) is not None]
    order = sorted(known)
    got = new["k_score"]
    require(type(got) is VariableArray and got.element_type is VariableStruct, "form of the scores")
    require(len(got.value[1]) == len(known), "number of scores", len(got.value[1]), len(known))
    repeated = len(set(names)) != len(names)
    for pos, (name, i) in enumerate(order):
        e = got.value[1][pos].value
        n = "s" + str(i)
        require(set(e) == {"rind", "file_name", "combo", "time", "thorough", "best_time", "overall", "key_type"}, "fields of a score", list(e))
        require(type(e["file_name"]) is VariableString and e["file_name"].value == name.encode(), "scores are ordered by level name", pos, name)
        kinds = (type(e["rind"]), type(e["combo"]), type(e["time"]), type(e["thorough"]), type(e["best_time"]), type(e["overall"]), type(e["key_type"]))
        require(kinds == (VariableInt, VariableInt, VariableFloat, VariableFloat, VariableFloat, VariableInt, VariableInt), "types of the fields")
        key = door(name)
        require(e["key_type"].value == (4 if key == 0 else key), "key type of " + name, e["key_type"].value)
        require(e["rind"].value == 0, "score index")
        if repeated:
            continue
        require(e["combo"].value == s(n + ".combo", 32), "combo of " + name)
        require(e["overall"].value == s(n + ".overall", 32), "overall of " + name)
        if exact:
            require(e["time"].value == real(n + ".time", 0.0, 1e6), "time of " + name)
            require(e["thorough"].value == real(n + ".thorough", 0.0, 1e6), "thoroughness of " + name)
            require(e["best_time"].value == real(n + ".best", 0.0, 1e6), "best time of " + name)
    count = [0, 0, 0, 0]
    for name, _ in known:
        count[door(name)] += 1
    single(new, "k_wood_used", VariableInt, count[1])
    single(new, "k_silver_used", VariableInt, count[2])
    single(new, "k_gold_used", VariableInt, count[3])
    single(new, "k_red_used", VariableInt, 0 if red is None else red)
    single(new, "k_root", VariableString, b"")
    single(new, "k_ngplus", VariableBool, False)


def rule(names, red=None, books=None, scores=True):
    old = save(names, red, books, scores)
    before = save(names, red, books, scores)
    new = migrate_stats(old)
    check(new, before, names if scores else [], red)
    require(set(old) == set(before), "the old save is left alone")
    for k in before:
        same(before[k], old[k], "the old save is left alone: " + k)
    VariableStruct(new).assert_types()


@cases(name=ORDER + UNKNOWN)
def case_one_level(name):
    rule([name], s("red", 32))


@cases(a=ORDER[::3], b=ORDER[1::5])
def case_two_levels(a, b):
    rule([a, b])
    rule(["zzz", b, "custom-1", a, "aaa"])


def case_all_levels():
    rule(ORDER)
    rule(ORDER[::-1])
    rule(sorted(ORDER), s("red", 32))
    rule(sorted(ORDER, reverse=True) + UNKNOWN, s("red", 32))
    rule(ORDER[::2] + UNKNOWN + ORDER[1::2])


@cases(name=ORDER[::7])
def case_repeated_levels(name):
    rule([name, name])
    rule([name, "downhill", name, "dome"])


@cases(red=["absent", "present"], scores=[False, True], books=[[], BOOKS[:1], BOOKS[::2], BOOKS[::-1]])
def case_missing_entries(red, scores, books):
    r = None if red == "absent" else s("red", 32)
    rule(["titan", "unknown", "den"], r, books, scores)
    rule([], r, books, scores)


@cases(book=BOOKS)
def case_books_of_any_kind(book):
    for v in (VariableInt(s("x", 32)), VariableStruct({"a": VariableString(sbytes("y", 3))}), VariableArray(VariableInt, [VariableInt(s("z", 32))])):
        old = {book: v, book + "x": VariableInt(1), book[:-1]: VariableInt(2), book.upper(): VariableInt(3)}
        new = migrate_stats(old)
        same(v, new[book], "book entry")
        require(book + "x" not in new and book[:-1] not in new and book.upper() not in new, "other entries are dropped")


def run(alone, *argv):
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        if alone:
            sys.argv = ["prog"] + list(argv)
            code = run_utility(SaveConvert)
        else:
            sys.argv = ["prog", "saveconvert"] + list(argv)
            code = main()
    except SystemExit as e:
        code = e.args[0] if e.args else 0
    return 0 if code is None else code


def concrete_score(name, i):
    return VariableStruct(
        {
            "file_name": VariableString(name.encode()),
            "combo": VariableInt(s("s" + str(i) + ".combo", 32)),
            "time": VariableFloat(1.5 * i),
            "thorough": VariableFloat(0.25 * i),
            "best_time": VariableFloat(100.0 + i),
            "overall": VariableInt(s("s" + str(i) + ".overall", 32)),
        }
    )


@cases(alone=[False, True], names=[[], ["dome"], ["summit", "nowhere", "abyss", "alley"], ORDER[::9]])
def case_tool(alone, names):
    old = {
        "score": VariableArray(VariableStruct, [concrete_score(k, i) for i, k in enumerate(names)]),
        "citybook": VariableArray(VariableString, [VariableString(sbytes("cb", 3))]),
        "red_used": VariableInt(s("red", 32)),
        "other": VariableInt(5),
    }
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        w.write_var_file(b"DF_STA", old)
    data = out.getvalue()
    add_file("stats0", data)
    code = run(alone, "stats0", "stats1")
    require(code == 0, "the tool succeeds", code)
    require_same(get_file("stats0"), data, "the old save is left alone")
    with DFReader(io.BytesIO(get_file("stats1"))) as r:
        new = r.read_var_file(b"DF_STA")
    check(new, old, names, s("red", 32), exact=False)
    for e in new["k_score"].value[1]:
        i = names.index(e.value["file_name"].value.decode())
        require(e.value["time"].value == 1.5 * i and e.value["thorough"].value == 0.25 * i and e.value["best_time"].value == 100.0 + i, "times", i)


@cases(header=[b"DF_CFG", b"DF_LVL"])
def case_other_files(header):
    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        w.write_var_file(header, {})
    data = out.getvalue()
    add_file("stats0", data)
    try:
        code = run(True, "stats0", "stats1")
    except Exception:
        code = 1
    require(code != 0, "only saves are converted", code)
    require(get_file("stats1") is None, "nothing is written")
