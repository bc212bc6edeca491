"""C14: replay metadata and desync data survive a write/read cycle."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay

RULE = (
    "Replays with abstract names, frame counts, desync frames (all 32-bit values, positions in tenths, speeds in "
    "hundredths) and every character, player count, version, header and length option are traced through write_replay and "
    "read_replay; everything must come back as written. Unsupported versions, impossible player counts and overlong names "
    "must raise."
)


def write(rep, **kw):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep, **kw)
    w.close()
    return buf.getvalue()


def read(data, known):
    r = DFReader(io.BytesIO(data))
    return r.read_replay(known_length=len(data)) if known else r.read_replay()


def same(rep, back, where):
    require(back.version == rep.version, where + ": version", rep.version, back.version)
    require(bytes(back.username) == rep.username, where + ": user name")
    require(bytes(back.level) == rep.level, where + ": level name")
    require(back.frames == rep.frames, where + ": frame count", rep.frames, back.frames)
    require(len(back.players) == len(rep.players), where + ": number of players", len(back.players))
    for p, q in zip(rep.players, back.players):
        require(p.character == q.character, where + ": character", p.character, q.character)
    require(len(back.entities) == len(rep.entities), where + ": number of entities with desync data", len(back.entities))
    for k, e in rep.entities.items():
        got = back.entities.get(k)
        require(got is not None, where + ": desync data of an entity")
        if got is None:
            continue
        require(len(got.frames) == len(e.frames), where + ": number of desync frames", len(got.frames))
        for f, g in zip(e.frames, got.frames):
            for a in ("frame", "x_pos", "y_pos", "x_speed", "y_speed"):
                require(getattr(g, a) == getattr(f, a), where + ": desync " + a, getattr(f, a), getattr(g, a))


def frame(n, bits=32):
    return EntityFrame(
        frame=u(n + ".frame", bits),
        x_pos=s(n + ".x", bits) / 10.0,
        y_pos=s(n + ".y", bits) / 10.0,
        x_speed=s(n + ".xs", bits) / 100.0,
        y_speed=s(n + ".ys", bits) / 100.0,
    )


def players(version, n):
    return [PlayerData(Character((i * 3) % 8), {IntentStream.X: [1, 1, -1]}) for i in range(n)]


@cases(version=[1, 3, 4], user=[0, 1, 5], lname=[0, 1, 8], known=[False, True], force=[False, True])
def case_names(version, user, lname, known, force):
    rep = Replay(version=version, username=sbytes("user", user), level=sbytes("level", lname), frames=u("frames", 32))
    rep.players = players(version, 1)
    same(rep, read(write(rep, force_username=force), known), "replay")


@cases(version=[3, 4], n=[0, 1, 2, 3, 4, 5, 255, 256, 300], known=[False, True])
def case_player_count(version, n, known):
    rep = Replay(version=version, username=b"somebody", level=b"level", frames=7)
    rep.players = [PlayerData(Character(i % 8)) for i in range(n)]
    same(rep, read(write(rep), known), "replay")


@cases(version=[1, 3, 4], first=list(Character), second=[Character.DUSTMAN, Character.DUSTWRAITH])
def case_characters(version, first, second):
    rep = Replay(version=version, level=b"x", frames=u("frames", 32))
    rep.players = [PlayerData(first)] + ([] if version == 1 else [PlayerData(second)])
    same(rep, read(write(rep), False), "replay")


@cases(version=[1, 3, 4], counts=[(), (0,), (1,), (2,), (0, 1), (1, 0, 2), (3, 2)], known=[False, True])
def case_desync(version, counts, known):
    """several entities with several frames"""
    rep = Replay(version=version, level=b"abc", frames=90)
    rep.players = players(version, 1)
    for i, c in enumerate(counts):
        rep.entities[(u("id", 28) << 4) | (15 - i) if i < 2 else 1000 - i] = EntityData([frame("e" + str(i) + "f" + str(j)) for j in range(c)])
        if i == 1:
            assume(u("id", 28) != 0)
    same(rep, read(write(rep), known), "replay")


@cases(values=[(0.0, -0.1), (0.3, -0.3), (1234.7, -1234.7), (214748364.7, -214748364.8), (0.04, -0.06), (5.15, 5.25)])
def case_resolution(values):
    """positions to 0.1, speeds to 0.01"""
    rep = Replay(version=4, level=b"abc", frames=90, players=[PlayerData()])
    a, b = values
    rep.entities[2] = EntityData([EntityFrame(8, a, b, a / 10, b / 10), EntityFrame(16, b, a, b / 10, a / 10)])
    back = read(write(rep), False)
    for f, g in zip(rep.entities[2].frames, back.entities[2].frames):
        require(g.frame == f.frame, "frame number")
        require(abs(g.x_pos - f.x_pos) <= 0.0501 and abs(g.y_pos - f.y_pos) <= 0.0501, "position to 0.1", f.x_pos, g.x_pos)
        require(abs(g.x_speed - f.x_speed) <= 0.00501 and abs(g.y_speed - f.y_speed) <= 0.00501, "speed to 0.01")


@cases(pre=[1, 7], known=[False, True], user=[0, 4])
def case_inside_stream(pre, known, user):
    """a replay behind other data and followed by more data"""
    rep = Replay(version=4, username=sbytes("user", user), level=b"abc", frames=90)
    rep.players = players(4, 2)
    rep.entities[3] = EntityData([frame("f")])
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_bytes(sbytes("pre", pre))
    w.write_replay(rep)
    end = w.bit_tell() // 8
    w.write_bytes(b"TAIL")
    w.close()
    r = DFReader(io.BytesIO(buf.getvalue()))
    r.read_bytes(pre)
    back = r.read_replay(known_length=end - pre) if known else r.read_replay()
    same(rep, back, "replay")
    require(r.read_bytes(4) == b"TAIL", "reader stands behind the replay")


@cases(version=[-1, 0, 2, 5, 6, 9, 52])
def case_bad_version(version):
    rep = Replay(version=version, level=b"x", players=[PlayerData()])
    try:
        write(rep)
    except Exception:
        pass
    else:
        fail("a replay of an unsupported version was written")
    good = write(Replay(version=4, level=b"x", players=[PlayerData()]))
    bad = good[:6] + bytes([(48 + version) & 255]) + good[7:]
    for known in (False, True):
        try:
            read(bad, known)
        except Exception:
            pass
        else:
            fail("a replay of an unsupported version was read")


@cases(n=[0, 2, 3])
def case_bad_players(n):
    rep = Replay(version=1, level=b"x", players=[PlayerData() for _ in range(n)])
    try:
        write(rep)
    except Exception:
        return
    fail("a version 1 replay was written with an impossible number of players")


@cases(n=[254, 255, 256, 257, 300, 512], version=[1, 3, 4])
def case_level_name_length(n, version):
    rep = Replay(version=version, level=b"q" * n, players=[PlayerData()])
    try:
        data = write(rep)
    except Exception:
        require(n > 255, "level name that fits is written")
        return
    require(n <= 255, "a level name too long for its length field is refused")
    require(read(data, False).level == rep.level, "level name")


@cases(n=[65534, 65535, 65536, 65537, 131072])
def case_user_name_length(n):
    rep = Replay(version=4, username=b"q" * n, level=b"x", players=[PlayerData()])
    try:
        data = write(rep)
    except Exception:
        require(n > 65535, "user name that fits is written")
        return
    require(n <= 65535, "a user name too long for its length field is refused")
    require(read(data, True).username == rep.username, "user name")


@cases(player=[1, 2, 4])
def case_accessors(player):
    rep = Replay(version=4, level=b"x", players=[PlayerData() for _ in range(4)])
    a, b = EntityData([frame("a")]), EntityData([frame("b")])
    rep.entities = {2 * player: a, 2 * player + 1: b}
    back = read(write(rep), True)
    same(rep, back, "replay")
    require(back.get_player_entity_data(player).frames == a.frames, "player entity")
    require(back.get_camera_entity_data(player).frames == b.frames, "camera entity")
    require(back.get_player_entity_data(player + 1) is None, "no data of another player")


@cases(ents=[20, 257], frames=[1, 3], known=[False, True])
def case_many_entities(ents, frames, known):
    rep = Replay(version=4, username=b"somebody", level=b"abc", frames=90)
    rep.players = players(4, 2)
    for i in range(ents):
        rep.entities[3 * i + 1] = EntityData([EntityFrame(i * 9 + j, i * 0.5, -j * 1.5, 0.25 * j, -0.5 * i) for j in range(frames)])
    rep.entities[4] = EntityData([frame("f")])
    same(rep, read(write(rep), known), "replay")


@cases(n=[60, 257, 300], known=[False, True])
def case_many_frames(n, known):
    rep = Replay(version=4, level=b"abc", frames=90)
    rep.players = players(4, 1)
    rep.entities[2] = EntityData([EntityFrame(8 * j, j * 0.5, -j * 1.5, 0.25 * j, -0.5 * j) for j in range(n)])
    rep.entities[3] = EntityData([frame("f")])
    same(rep, read(write(rep), known), "replay")


@cases(how=["names", "frames", "character", "frame", "new frame", "entity", "moved", "shared", "version", "reader", "other"], known=[False, True])
def case_edited(how, known):
    """what is written is what the replay holds then, whatever was written or read before"""
    rep = Replay(version=4, username=sbytes("user", 3), level=sbytes("level", 4), frames=u("frames", 32))
    rep.players = players(4, 2)
    rep.entities[2] = EntityData([frame("a"), frame("b")])
    rep.entities[7] = EntityData([frame("c")])
    back = read(write(rep), known)
    same(rep, back, "before")
    if how == "reader":
        rep = back
        how = "frame"
        rep.username = sbytes("nu", 3)
    if how == "names":
        rep.username, rep.level = sbytes("nu", 5), sbytes("nl", 2)
    elif how == "frames":
        rep.frames = u("nf", 32)
    elif how == "character":
        rep.players[0].character, rep.players[1].character = Character.DUSTWRAITH, Character.DUSTKID
    elif how == "frame":
        f = rep.entities[2].frames[1]
        f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed = u("n.frame", 32), s("n.x", 32) / 10.0, s("n.y", 32) / 10.0, s("n.xs", 32) / 100.0, s("n.ys", 32) / 100.0
    elif how == "new frame":
        rep.entities[2].frames.append(frame("n"))
        rep.entities[7].frames.pop()
    elif how == "entity":
        rep.entities[9] = EntityData([frame("n")])
        del rep.entities[2]
    elif how == "moved":
        rep.entities[3] = rep.entities.pop(2)
    elif how == "shared":
        rep.entities[11] = rep.entities[2]
        rep.entities[12] = EntityData([rep.entities[2].frames[0], rep.entities[7].frames[0]])
    elif how == "version":
        rep.version = 3
    elif how == "other":
        rep = Replay(version=4, username=b"", level=sbytes("o", 4), frames=5, players=players(4, 1))
        rep.entities[2] = EntityData([frame("o")])
    same(rep, read(write(rep), known), "after")
