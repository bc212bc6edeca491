"""C13: replay inputs survive a write/read cycle."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, MouseState, PlayerData, Replay

RULE = (
    "Input streams with abstract values (every combination per stream kind for short streams) and with every run length "
    "around the encoding limits are traced through write_replay and read_replay; get_intent_value must return, for every "
    "player, stream and frame, what it returned before, the neutral value outside the recorded frames."
)

STREAMS = {1: 7, 3: 8, 4: 11}
NEUTRAL = [0] * 8 + [0.0, 0.0, 0]


def cycle(rep, known=False):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep)
    w.close()
    data = buf.getvalue()
    r = DFReader(io.BytesIO(data))
    return r.read_replay(known_length=len(data)) if known else r.read_replay()


def neutral(i):
    return NEUTRAL[i]


def check_player(p, values, upto, where):
    """values: stream -> list of values"""
    for i in range(11):
        vals = values.get(i, [])
        stream = IntentStream(i)
        for f in [-1] + list(range(len(vals))) + [len(vals), len(vals) + 1, upto, upto + 300]:
            want = vals[f] if 0 <= f < len(vals) else neutral(i)
            got = p.get_intent_value(stream, f)
            require(got == want, where + ": value of a stream at a frame", i, f, want, got)


def any_value(i, name):
    """every value the stream can hold"""
    if i < 2:
        return u(name, 2) - 1
    if i < 5:
        return u(name, 2)
    if i < 8:
        return u(name, 4)
    if i < 10:
        return u(name, 15) / 32767.0
    return MouseState(u(name, 5))


SAMPLE = [[1, -1], [-1, 1], [2, 1], [1, 2], [1, 2], [10, 9], [11, 3], [1, 2], [0.5, 1.0], [1.0, 0.25], [MouseState(4), MouseState(17)]]


def q(v):
    return round(v * 32767) / 32767.0


def value(i, k):
    """0: neutral, 1 and 2: two other values"""
    if k == 0:
        return NEUTRAL[i] if i < 10 else MouseState(0)
    v = SAMPLE[i][k - 1]
    return q(v) if i in (8, 9) else v


@cases(stream=list(range(11)), pattern=["", "n", "x", "nn", "nx", "xn", "xx", "xy"])
def case_any_values(stream, pattern):
    """one stream, every value in every frame; pattern: which values are neutral (n) or equal (xx)"""
    rep = Replay(version=4, level=b"lvl", frames=u("frames", 32))
    raw = []
    vals = []
    for i, c in enumerate(pattern):
        v = any_value(stream, "v" + ("0" if pattern == "xx" else str(i)))
        if c == "n":
            v = value(stream, 0)
        else:
            assume(v != value(stream, 0))
        vals.append(v)
    if pattern == "xy":
        assume(vals[0] != vals[1])
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream(stream): vals})]
    back = cycle(rep)
    require(len(back.players) == 1, "number of players")
    check_player(back.players[0], {stream: vals}, 5, "player")


@cases(stream=list(range(11)), frames=[0, 1, 2, 3, 255, 256, 257, 300, 100000, (1 << 32) - 1], n=[1, 3, 4, 300])
def case_frame_count(stream, frames, n):
    """the frame count of the replay is a datum of its own: streams may be longer or shorter"""
    rep = Replay(version=4, level=b"lvl", frames=frames)
    vals = ([value(stream, 1), value(stream, 1), value(stream, 2)] + [value(stream, 0)] * n)[:n] + [value(stream, 2)]
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream(stream): vals}), PlayerData(Character.DUSTKID, {IntentStream(stream): vals[:1]})]
    back = cycle(rep)
    require(back.frames == frames, "frame count", back.frames)
    check_player(back.players[0], {stream: vals}, 900, "player")
    check_player(back.players[1], {stream: vals[:1]}, 900, "second player")


@cases(stream=[0, 1, 2, 3, 4, 5, 6, 7, 10], a=[0, 1, 2], b=[0, 1, 2])
def case_any_between(stream, a, b):
    """an abstract value between two runs"""
    rep = Replay(version=4, level=b"lvl")
    v = any_value(stream, "v")
    for k in (0, a, b):
        assume(v != value(stream, k))
    vals = [value(stream, a), v, value(stream, b), value(stream, b), value(stream, 0)]
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream(stream): vals})]
    check_player(cycle(rep).players[0], {stream: vals}, 9, "player")


RUNS = [1, 2, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 1021] if THOROUGH else [1, 2, 254, 255, 256, 257, 510, 511, 766]


@cases(stream=[0, 2, 5, 8, 10] if THOROUGH else [0, 8], run=RUNS, kind=[0, 1], tail=[(), (0,), (2,), (0, 2), (2, 0)])
def case_first_run(stream, run, kind, tail):
    """the first run, neutral or not, of every critical length"""
    rep = Replay(version=4, level=b"lvl")
    vals = [value(stream, kind)] * run + [value(stream, k) for k in tail]
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream(stream): vals})]
    check_player(cycle(rep).players[0], {stream: vals}, 2000, "player")


@cases(stream=[0, 6, 9] if THOROUGH else [1], run=RUNS, head=[(0,), (2,), (0, 2), (2, 0)], kind=[0, 1], tail=[(), (2,), (0,)])
def case_later_run(stream, run, head, kind, tail):
    rep = Replay(version=4, level=b"lvl")
    vals = [value(stream, k) for k in head] + [value(stream, kind)] * run + [value(stream, k) for k in tail]
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream(stream): vals})]
    check_player(cycle(rep).players[0], {stream: vals}, 2000, "player")


@cases(version=[1, 3, 4], present=["none", "even", "odd", "all", "empty"], known=[False, True])
def case_streams(version, present, known):
    """which streams exist, for each version, two players with different inputs"""
    rep = Replay(version=version, username=b"u", level=b"lvl")
    rep.players = []
    want = []
    for n in range(1 if version == 1 else 2):
        p, w = PlayerData(Character(n)), {}
        for i in range(11):
            if present == "none" or (present == "even" and i % 2) or (present == "odd" and not i % 2):
                continue
            vals = [] if present == "empty" else [value(i, 1)] * (i + 1 + n) + [value(i, 0)] * (n * 260) + [value(i, 2)]
            p.intents[IntentStream(i)] = vals
            if i < STREAMS[version]:
                w[i] = vals
        rep.players.append(p)
        want.append(w)
    rep.entities[2] = EntityData([EntityFrame(frame=3, x_pos=1.0)])
    back = cycle(rep, known)
    require(len(back.players) == len(want), "number of players")
    for p, w in zip(back.players, want):
        check_player(p, w, 600, "player")
    require(len(back.entities) == 1 and back.entities[2].frames[0].x_pos == 1.0, "desync data behind the inputs")


@cases(players=[0, 1, 2, 3, 4], version=[3, 4])
def case_players(players, version):
    rep = Replay(version=version, level=b"lvl")
    vals = [[u("v" + str(n), 1) + 2] for n in range(players)]
    rep.players = [PlayerData(Character.DUSTKID, {IntentStream.JUMP: [0] * n + vals[n] + [1]}) for n in range(players)]
    back = cycle(rep)
    require(len(back.players) == players, "number of players")
    for n in range(players):
        check_player(back.players[n], {2: [0] * n + vals[n] + [1]}, 10, "player")


@cases(k=list(range(0, 32768, 128 if THOROUGH else 1024)))
def case_mouse_values(k):
    rep = Replay(version=4, level=b"lvl")
    vals = [j / 32767.0 for j in range(k, min(k + 128, 32768), 1 if THOROUGH else 9)]
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream.MOUSE_X: vals, IntentStream.MOUSE_Y: vals[::-1]})]
    check_player(cycle(rep).players[0], {8: vals, 9: vals[::-1]}, 500, "player")


@cases(stream=list(range(11)), n=[40, 130, 300], known=[False, True])
def case_restless(stream, n, known):
    """many short runs"""
    rep = Replay(version=4, username=b"u", level=b"lvl")
    vals = []
    for i in range(n):
        vals = vals + [value(stream, i * 7 % 3)] * (1 + i % 3)
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream(stream): vals}), PlayerData(Character.DUSTGIRL, {IntentStream(stream): vals[1:]})]
    back = cycle(rep, known)
    check_player(back.players[0], {stream: vals}, 2000, "player")
    check_player(back.players[1], {stream: vals[1:]}, 2000, "second player")


@cases(stream=[0, 4, 8, 10], run=[3000, 4097, 9000] + ([33000, 66000] if THOROUGH else []), kind=[0, 1])
def case_long_replay(stream, run, kind):
    rep = Replay(version=4, level=b"lvl")
    vals = [value(stream, 2)] + [value(stream, kind)] * run + [value(stream, 2)]
    rep.players = [PlayerData(Character.DUSTMAN, {IntentStream(stream): vals})]
    p = cycle(rep).players[0]
    for f in [0, 1, 2, 255, 256, 257, 511, 512, 2999, 3000, 3001, 4096, 4097, run - 1, run, run + 1, run + 2]:
        want = vals[f] if f < len(vals) else neutral(stream)
        require(p.get_intent_value(IntentStream(stream), f) == want, "value of a stream at a frame", f)


@cases(stream=list(range(11)), how=["value", "append", "new list", "cleared", "shared", "swapped", "reader", "other"])
def case_edited(stream, how):
    """what is written is what the replay holds then, whatever was written or read before"""
    rep = Replay(version=4, username=b"u", level=b"lvl")
    a, b = [value(stream, 1), value(stream, 2)], [value(stream, 0), value(stream, 2), value(stream, 2)]
    key, other = IntentStream(stream), IntentStream((stream + 1) % 11)
    rep.players = [PlayerData(Character.DUSTMAN, {key: a}), PlayerData(Character.DUSTGIRL, {key: b})]
    back = cycle(rep)
    check_player(back.players[0], {stream: a}, 9, "before")
    p, q = rep.players
    if how == "value":
        a[0] = value(stream, 2)
        a.append(value(stream, 1))
    elif how == "append":
        q.intents[key] = b + [value(stream, 1)] * 3
    elif how == "new list":
        p.intents[key] = [value(stream, 0)] * 4 + [value(stream, 1)]
    elif how == "cleared":
        p.intents = {}
    elif how == "shared":
        q.intents[key] = a
        rep.players.append(p)
    elif how == "swapped":
        rep.players = [q, p]
    elif how == "reader":
        rep = back
        back.players[0].intents[key] = [value(stream, 2)] * 2 + [value(stream, 1)]
    elif how == "other":
        rep = Replay(version=3 if stream < 8 else 4, level=b"lvl", players=[PlayerData(Character.DUSTKID, {key: [value(stream, 2)] * 3})])
    want = [list(x.intents.get(key, [])) for x in rep.players]
    got = cycle(rep)
    require(len(got.players) == len(want), "number of players")
    for x, vals in zip(got.players, want):
        check_player(x, {stream: vals}, 9, "after")
