"""C33: convenience accessors report exactly the stored data."""

from dustmaker.entity import FogTrigger
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, MouseState, PlayerData, Replay
from dustmaker.tile import Tile, TileShape, TileSide, TileSpriteSet
from dustmaker.variable import VariableArray, VariableBool, VariableFloat, VariableUInt
from rules.common import any_tile

RULE = (
    "Each accessor is traced over abstract objects and compared with its definition written in the rule: tile sprite tuple, "
    "sprite path, filth and dustblock queries for every sprite set and abstract indices; replay inputs inside and outside "
    "the recorded range for every stream; player and camera data for every player; fog layout for every layer and sublayer "
    "and fog normalisation from every start length of the partition."
)

# index of the dustblock sprite per set, None when there is none
DUSTBLOCK = [None, 21, 13, 6, 9, 2, None, None]


@cases(shape=list(TileShape), sset=list(TileSpriteSet))
def case_sprite_tuple(shape, sset):
    t = any_tile("t", shape, sset)
    a, b, c = t.get_sprite_tuple()
    require(a == sset and b == u("t.tile", 8) and c == u("t.pal", 4), "sprite tuple lists set, index and palette")
    o = any_tile("o", TileShape.BIG_6, TileSpriteSet.CITY)
    keep = clone(o)
    o.set_sprite_tuple(t.get_sprite_tuple())
    require(o.sprite_set == sset and o.sprite_tile == u("t.tile", 8) and o.sprite_palette == u("t.pal", 4), "sprite copied")
    require(o.get_sprite_tuple() == t.get_sprite_tuple(), "sprite tuple set is the sprite tuple got")
    require(o.shape == keep.shape and o.tile_flags == keep.tile_flags and is_same(o.edge_data, keep.edge_data), "nothing else changes")
    require(t.get_sprite_tuple() == (sset, u("t.tile", 8), u("t.pal", 4)), "source tile unchanged")


@cases(sset=list(TileSpriteSet), tile=[0, 1, 9, 10, 255], palette=[0, 1, 9, 15])
def case_sprite_path(sset, tile, palette):
    t = Tile(sprite_set=sset, sprite_tile=tile, sprite_palette=palette)
    names = ["none_0", "mansion", "forest", "city", "laboratory", "tutorial", "nexus", "none_7"]
    want = "area/" + names[sset] + "/tiles/tile" + str(tile) + "_" + str(palette + 1) + "_0001.png"
    require(t.sprite_path == want, "sprite path", t.sprite_path, want)


@cases(shape=[TileShape.FULL, TileShape.SMALL_3, TileShape.HALF_C], sets=[(a, b, c, d) for a in (0, 1) for b in (0, 4) for c in (0, 7) for d in (0, 6)])
def case_has_filth(shape, sets):
    t = any_tile("t", shape, TileSpriteSet.FOREST, [TileSpriteSet(x) for x in sets])
    require(bool(t.has_filth()) == (sets != (0, 0, 0, 0)), "filth on any edge, dust or spikes", sets)


@cases(sset=list(TileSpriteSet))
def case_is_dustblock(sset):
    """for every sprite index"""
    t = any_tile("t", TileShape.FULL, sset)
    if DUSTBLOCK[sset] is None:
        require(not t.is_dustblock(), "a set without dustblocks has none")
    else:
        require(bool(t.is_dustblock()) == (u("t.tile", 8) == DUSTBLOCK[sset]), "dustblock exactly at its index")


@cases(sset=list(TileSpriteSet), shape=list(TileShape))
def case_set_dustblock(sset, shape):
    t = any_tile("t", shape, sset, [TileSpriteSet(x) for x in (0, 3, 0, 1)])
    keep = clone(t)
    if DUSTBLOCK[sset] is None:
        try:
            t.set_dustblock()
        except ValueError:
            require(is_same(t, keep), "a refused change leaves the tile alone")
            return
        fail("a set without dustblock tile is refused with ValueError")
    t.set_dustblock()
    require(t.is_dustblock() == True and t.sprite_tile == DUSTBLOCK[sset], "it is a dustblock now")
    require(t.sprite_palette == 1, "dustblock palette", t.sprite_palette)
    require(t.sprite_set == sset and t.shape == shape and t.tile_flags == keep.tile_flags and is_same(t.edge_data, keep.edge_data), "nothing else changes")


def neutral(stream):
    if stream in (IntentStream.MOUSE_X, IntentStream.MOUSE_Y):
        return 0.0
    return 0


@cases(stream=list(IntentStream), n=[0, 1, 3], frame=[-4, -3, -1, 0, 1, 2, 3, 4, 100, 2**31])
def case_intent_value(stream, n, frame):
    """recorded value inside the recording, neutral outside it"""
    vals = [u("v" + str(i), 4) for i in range(n)]
    other = IntentStream((stream + 1) % 11)
    p = PlayerData()
    p.intents[other] = [7] * 5
    p.intents[stream] = list(vals)
    got = p.get_intent_value(stream, frame)
    if 0 <= frame < n:
        require(got == vals[frame], "recorded value", frame, got)
    else:
        require(got == neutral(stream), "neutral value outside the recording", frame, got)
    require(len(p.intents) == 2 and len(p.intents[stream]) == n, "the recording is unchanged")


@cases(stream=list(IntentStream), frame=[0, 5])
def case_intent_absent(stream, frame):
    p = PlayerData()
    require(p.get_intent_value(stream, frame) == neutral(stream), "neutral value without a recording")
    require(len(p.intents) == 0, "the recording is unchanged")


@cases(player=[1, 2, 3, 4], present=[True, False], frames=[0, 1, 3])
def case_entity_data(player, present, frames):
    """player n has id 2n, its camera 2n + 1"""
    rep = Replay()
    data = {i: EntityData([EntityFrame(frame=i + j) for j in range(frames)]) for i in range(0, 12)}
    rep.entities = dict(data)
    if not present:
        rep.entities.pop(2 * player)
        rep.entities.pop(2 * player + 1)
    a, b = rep.get_player_entity_data(player), rep.get_camera_entity_data(player)
    if present:
        require(a is data[2 * player], "data of the player")
        require(b is data[2 * player + 1], "data of its camera")
    else:
        require(a is None and b is None, "no data")
    require(len(rep.entities) == (12 if present else 10), "the replay is unchanged")
    if player == 1 and present:
        require(rep.get_player_entity_data() is data[2] and rep.get_camera_entity_data() is data[3], "first player by default")


@cases(layer=list(range(21)))
def case_fog_index(layer):
    """layers first, then sublayer by sublayer"""
    require(FogTrigger.get_layer_index(layer) == layer, "index of a layer")
    for sub in range(25):
        got = FogTrigger.get_layer_index(layer, sub)
        require(got == 21 + 21 * sub + layer, "index of a sublayer", sub, got)
        require(got < 21 * 26, "inside the sublayer table", got)


@cases(layer=[-1, 21, 100], sub=[None, 0])
def case_fog_index_layer_range(layer, sub):
    try:
        FogTrigger.get_layer_index(layer, sub)
    except (AssertionError, ValueError, IndexError):
        return
    fail("a layer out of range is refused")


@cases(layer=[0, 20], sub=[-1, 25])
def case_fog_index_sublayer_range(layer, sub):
    try:
        FogTrigger.get_layer_index(layer, sub)
    except (AssertionError, ValueError, IndexError):
        return
    fail("a sublayer out of range is refused")


max_loop(3000)


@cases(colours=[0, 1, 20, 21, 22, 60, 546, 548], pers=[0, 21, 22, 547], gradient=[0, 2, 3, 5], sub=[None, False, True])
def case_fog_normalize(colours, pers, gradient, sub):
    """the tables get their length and keep what they had"""
    if gradient not in (0, 5) and pers != 22:
        return
    f = FogTrigger()
    if sub is not None:
        f.has_sub_layers = sub
    want = 21 * 26 if sub else 21
    c = [i for i in range(colours)]
    p = [i / 1024.0 for i in range(pers)]
    g = [i + 9 for i in range(gradient)]
    if colours:
        f.variables["fog_colour"] = VariableArray(VariableUInt, [VariableUInt(x) for x in c])
    if pers:
        f.variables["fog_per"] = VariableArray(VariableFloat, [VariableFloat(x) for x in p])
    if gradient:
        f.variables["gradient"] = VariableArray(VariableUInt, [VariableUInt(x) for x in g])
    for _ in range(2):
        f.normalize()
        require(len(f.colours) == want and len(f.pers) == want and len(f.gradient) == 3, "lengths", len(f.colours), len(f.pers), len(f.gradient))
        require(list(f.colours) == c[:want] + [0x111118] * (want - len(c)), "colours kept, default behind them")
        require(list(f.pers) == p[:want] + [0.0] * (want - len(p)), "fog shares kept, default behind them")
        require(list(f.gradient) == g[:3] + [0] * (3 - len(g)), "gradient kept, default behind it")
    require(bool(f.has_sub_layers) == bool(sub), "sublayer setting unchanged")
