"""Helpers shared by the rules (interpreted abstractly like the rules themselves)."""

import io

from dustmaker.dfreader import DFReader, read_level
from dustmaker.dfwriter import DFWriter, write_level
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSide, TileSpriteSet

SHAPES = list(TileShape)


def edge_same(a, b, where, filth=True):
    require(b.solid == a.solid, where + ": solidity", a.solid, b.solid)
    require(b.visible == a.visible, where + ": visibility", a.visible, b.visible)
    require(len(b.caps) == 2 and len(b.angles) == 2, where + ": pairs")
    require(b.caps[0] == a.caps[0], where + ": first cap", a.caps[0], b.caps[0])
    require(b.caps[1] == a.caps[1], where + ": second cap", a.caps[1], b.caps[1])
    require(b.angles[0] == a.angles[0], where + ": first angle", a.angles[0], b.angles[0])
    require(b.angles[1] == a.angles[1], where + ": second angle", a.angles[1], b.angles[1])
    if filth:
        require(b.filth_sprite_set == a.filth_sprite_set, where + ": filth sprite set", a.filth_sprite_set, b.filth_sprite_set)
        require(b.filth_spike == a.filth_spike, where + ": spike flag", a.filth_spike, b.filth_spike)
        require(b.filth_caps[0] == a.filth_caps[0], where + ": first filth cap")
        require(b.filth_caps[1] == a.filth_caps[1], where + ": second filth cap")
        require(b.filth_angles[0] == a.filth_angles[0], where + ": first filth angle", a.filth_angles[0], b.filth_angles[0])
        require(b.filth_angles[1] == a.filth_angles[1], where + ": second filth angle", a.filth_angles[1], b.filth_angles[1])


def tile_same(a, b, where, filth=True):
    require(b.shape == a.shape, where + ": shape", a.shape, b.shape)
    require(b.tile_flags == a.tile_flags, where + ": flags", a.tile_flags, b.tile_flags)
    require(b.sprite_set == a.sprite_set, where + ": sprite set", a.sprite_set, b.sprite_set)
    require(b.sprite_tile == a.sprite_tile, where + ": sprite index", a.sprite_tile, b.sprite_tile)
    require(b.sprite_palette == a.sprite_palette, where + ": sprite palette", a.sprite_palette, b.sprite_palette)
    require(len(b.edge_data) == 4, where + ": four edges")
    for side in range(4):
        edge_same(a.edge_data[side], b.edge_data[side], where + ": edge " + str(side), filth)


def fill_edge(e, n, filth=None):
    """abstract edge: every flag, cap and angle; filth None: none, 'any': any set, else that set"""
    e.solid = flag(n + ".solid")
    e.visible = flag(n + ".visible")
    e.caps = (flag(n + ".cap0"), flag(n + ".cap1"))
    e.angles = (s(n + ".angle0", 8), s(n + ".angle1", 8))
    if filth is not None:
        e.filth_sprite_set = filth
        e.filth_spike = flag(n + ".spike")
        e.filth_caps = (flag(n + ".fcap0"), flag(n + ".fcap1"))
        e.filth_angles = (s(n + ".fangle0", 8), s(n + ".fangle1", 8))


def any_tile(n, shape, sset=TileSpriteSet.FOREST, filth=None):
    """filth: None or four sprite sets"""
    t = Tile(shape, tile_flags=u(n + ".flags", 3), sprite_set=sset, sprite_tile=u(n + ".tile", 8), sprite_palette=u(n + ".pal", 4))
    for i in range(4):
        fill_edge(t.edge_data[i], n + ".e" + str(i), None if filth is None else filth[i])
    return t


def save(level):
    """bytes of a level written through the public interface"""
    return write_level(level)


def load(data):
    return read_level(data)


def some_prop(n="p", scale=1.0):
    return Prop(u(n + ".sub", 8), u(n + ".rot", 16), flag(n + ".fx"), flag(n + ".fy"), scale, u(n + ".set", 8), u(n + ".group", 12), u(n + ".index", 12), u(n + ".pal", 8))


def prop_same(a, b, where, scale=True):
    for k in ("layer_sub", "rotation", "flip_x", "flip_y", "prop_set", "prop_group", "prop_index", "palette"):
        require(getattr(b, k) == getattr(a, k), where + ": " + k, getattr(a, k), getattr(b, k))
    if scale:
        require(abs(b.scale - a.scale) < 1e-9 * abs(a.scale), where + ": scale", a.scale, b.scale)
