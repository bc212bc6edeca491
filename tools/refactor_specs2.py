"""Second set of behaviour-preserving rewrites: dispatch tables, data classes, generators, closures, split functions."""
SPECS = {}

SPECS["bitio-d"] = [
    # bit by bit assembly from a cached byte
    ("bitio.py", '''        # Read in needed data from underlying stream.
        new_bytes = self.data.read(bytes_needed)

        if self._bits == -1:
            self._bits = new_bytes[0] >> (8 - self._bits_left)
            new_bytes = new_bytes[1:]

        # Calculate the result with maybe some extra data from the last byte.
        result = self._bits + (int.from_bytes(new_bytes, "little") << self._bits_left)

        # Save the extra data from the last byte
        self._bits = result >> bits
        self._bits_left = (self._bits_left - bits) & 7

        # Remove the extra data
        result = result & (1 << bits) - 1
''', '''        new_bytes = self._fetch(bytes_needed)

        # Calculate the result with maybe some extra data from the last byte.
        acc = functools.reduce(lambda hi, lo: hi << 8 | lo, reversed(new_bytes), 0)
        acc = acc << self._bits_left | self._bits

        # Split off the extra data from the last byte
        self._bits, result = divmod(acc, 1 << bits)
        self._bits_left = (self._bits_left - bits) % 8
'''),
    ("bitio.py", '''    def read_bytes(self, num: int) -> bytes:
''', '''    def _fetch(self, count: int) -> bytes:
        """Read raw bytes, completing a seek into the middle of a byte"""
        new_bytes = self.data.read(count)
        if self._bits != -1:
            return new_bytes
        lead, *rest = new_bytes
        self._bits = lead >> (8 - self._bits_left)
        return bytes(rest)

    def read_bytes(self, num: int) -> bytes:
'''),
    ("bitio.py", "import io\nimport itertools\n", "import functools\nimport io\nimport itertools\n"),
    ("bitio.py", '''        return bytes(self.read(8) for _ in range(num))
''', '''        return self.read(8 * num).to_bytes(num, "little") if num else b""
'''),
]
SPECS["writer-d"] = [
    ("dfwriter.py", '''class _LevelSegment:
    """Container class with raw information about a segment"""

    def __init__(self):
        self.tiles = [[] for _ in range(256)]
        self.entities = []
        self.props = []
        self.present = True


class _LevelRegion:
    """Container class for region data"""

    def __init__(self):
        self.segment_map = {}
        self.backdrop = _LevelSegment()
        self.backdrop.present = False

    def get_segment(self, x: int, y: int) -> _LevelSegment:
        """Return the segment at the given coordinate within this region"""
        seg_key = ((x // 16) & 0xF, (y // 16) & 0xF)

        seg = self.segment_map.get(seg_key)
        if seg is not None:
            return seg

        seg = _LevelSegment()
        self.segment_map[seg_key] = seg
        return seg
''', '''@dataclasses.dataclass
class _LevelSegment:
    """Container class with raw information about a segment"""

    tiles: List[list] = dataclasses.field(
        default_factory=lambda: [[] for _ in range(256)]
    )
    entities: list = dataclasses.field(default_factory=list)
    props: list = dataclasses.field(default_factory=list)
    present: bool = True


class _LevelRegion:
    """Container class for region data"""

    __slots__ = ("segment_map", "backdrop")

    def __init__(self):
        self.segment_map = collections.defaultdict(_LevelSegment)
        self.backdrop = _LevelSegment(present=False)

    def get_segment(self, x: int, y: int) -> _LevelSegment:
        """Return the segment at the given coordinate within this region"""
        return self.segment_map[(x >> 4) % 16, (y >> 4) % 16]
'''),
    ("dfwriter.py", '''    def __init__(self):
        self.region_map = {}

    def get_region(self, x: int, y: int) -> _LevelRegion:
        """Return the region at the given coordinate"""
        reg_ky = (x // 256, y // 256)
        reg = self.region_map.get(reg_ky)
        if reg is not None:
            return reg

        reg = _LevelRegion()
        self.region_map[reg_ky] = reg
        return reg
''', '''    def __init__(self):
        self.region_map = collections.defaultdict(_LevelRegion)

    def get_region(self, x: int, y: int) -> _LevelRegion:
        """Return the region at the given coordinate"""
        return self.region_map[x >> 8, y >> 8]
'''),
    ("dfwriter.py", "import io\nimport itertools\n", "import collections\nimport dataclasses\nimport io\nimport itertools\n"),
    ("dfwriter.py", '''        value = var.value
        if isinstance(var, VariableBool):
            self.write(1, 1 if value else 0)
            return
        if isinstance(var, (VariableUInt, VariableInt)):
            self.write(32, value)
            return
        if isinstance(var, VariableFloat):
            self.write_float(32, 32, value)
            return

        if isinstance(var, VariableString):
            if len(var.value) > max_width:
                raise ValueError("VariableString length too long")

            self.write(16, len(var.value))
            self.write_bytes(var.value)
            return

        if isinstance(var, VariableVec2):
            self.write_float(32, 32, value[0])
            self.write_float(32, 32, value[1])
            return
''', '''        value = var.value
        for cls, method in (
            (VariableBool, "_write_bool"),
            (VariableUInt, "_write_int"),
            (VariableInt, "_write_int"),
            (VariableFloat, "_write_real"),
            (VariableString, "_write_string"),
            (VariableVec2, "_write_vec2"),
        ):
            if isinstance(var, cls):
                getattr(self, method)(value)
                return
'''),
    ("dfwriter.py", '''    def write_variable(self, var: Variable) -> None:
''', '''    def _write_bool(self, value: bool) -> None:
        self.write(1, int(bool(value)))

    def _write_int(self, value: int) -> None:
        self.write(32, value)

    def _write_real(self, value: float) -> None:
        self.write_float(32, 32, value)

    def _write_vec2(self, value: Tuple[float, float]) -> None:
        for part in value[:2]:
            self._write_real(part)

    def _write_string(self, value: bytes) -> None:
        if len(value) > 0xFFFF:
            raise ValueError("VariableString length too long")
        self.write(16, len(value))
        self.write_bytes(value)

    def write_variable(self, var: Variable) -> None:
'''),
    ("dfwriter.py", '''        self.write(32, (end_index - start_index) // 8)
        self.write(16, 8)
        self.write(8, seg_x)
        self.write(8, seg_y)
        self.write(8, 16)

        self.write(32, 0)
        self.write(16, dust_filth)
        self.write(16, enemy_filth)

        self.write(16, tile_surface)
        self.write(16, dustblock_filth)

        self.write(32, flags)
        self.bit_seek(end_index)
''', '''        header = [
            (32, (end_index - start_index) >> 3),
            (16, 8),
            (8, seg_x),
            (8, seg_y),
            (8, 16),
            (32, 0),
            (16, dust_filth),
            (16, enemy_filth),
            (16, tile_surface),
            (16, dustblock_filth),
            (32, flags),
        ]
        for width, field in header:
            self.write(width, field)
        self.bit_seek(end_index)
'''),
]
SPECS["writer-e"] = [
    ("dfwriter.py", '''        if segment.props:
            flags |= 8

            self.write(16, len(segment.props))
            for id_num, layer, x, y, prop in segment.props:
                self.write(32, id_num)
                self.write(8, layer)
                self.write(8, prop.layer_sub)

                scale_lg = int(round(log(prop.scale) / log(50.0) * 24.0)) + 32
                x_scale = (scale_lg // 7) ^ 0x4
                y_scale = (scale_lg % 7) ^ 0x4
                x_int = int(abs(x))
                y_int = int(abs(y))
                x_sgn = 1 if x < 0 else 0
                y_sgn = 1 if y < 0 else 0
                self.write(1, x_sgn)
                self.write(27, x_int)
                self.write(4, x_scale)
                self.write(1, y_sgn)
                self.write(27, y_int)
                self.write(4, y_scale)

                self.write(16, prop.rotation)
                self.write(1, 1 if prop.flip_x else 0)
                self.write(1, 1 if prop.flip_y else 0)
                self.write(8, prop.prop_set)
                self.write(12, prop.prop_group)
                self.write(12, prop.prop_index)
                self.write(8, prop.palette)

        if segment.entities:
            flags |= 4

            extra_names_io = io.BytesIO()
            extra_names_writer = DFWriter(extra_names_io)
            self.write(16, len(segment.entities))
            for id_num, x, y, entity in segment.entities:
                enemy_filth += getattr(entity, "FILTH", 0)
                self.write(32, id_num)
                if entity.etype.startswith("z_") or entity.etype == "entity":
                    self.write_6bit_str("entity")
                    extra_names_writer.write_6bit_str(entity.etype)
                else:
                    self.write_6bit_str(entity.etype)
                self.write_float(32, 8, x)
                self.write_float(32, 8, y)
                self.write(16, entity.rotation)
                self.write(8, entity.layer)
                self.write(1, 0 if entity.flip_x else 1)
                self.write(1, 0 if entity.flip_y else 1)
                self.write(1, 1 if entity.visible else 0)
                self.write_variable(VariableStruct(entity.variables))

            extra_names_writer.align()
            entity_names_pos = self.bit_tell()
            self.write_bytes(extra_names_io.getvalue())
            self.align()
            self.write(32, self.bit_tell() - entity_names_pos)
''', '''        flags |= self._write_props(segment.props)
        flags |= self._write_entities(segment.entities)
        enemy_filth = sum(
            getattr(entry[3], "FILTH", 0) for entry in segment.entities
        )
'''),
    ("dfwriter.py", '''    def _write_region(self, x''', '''    def _write_props(self, props) -> int:
        """Write a list of props, returns the segment flag for it"""
        if not props:
            return 0

        self.write(16, len(props))
        for id_num, layer, x, y, prop in props:
            scale_lg = 32 + int(round(log(prop.scale) / log(50.0) * 24.0))
            scales = divmod(scale_lg, 7)
            self.write(32, id_num)
            self.write(8, layer)
            self.write(8, prop.layer_sub)
            for pos, part in zip((x, y), scales):
                self.write(1, pos < 0)
                self.write(27, abs(int(pos)))
                self.write(4, part ^ 0x4)
            self.write(16, prop.rotation)
            for flip in (prop.flip_x, prop.flip_y):
                self.write(1, 1 if flip else 0)
            for name, width in (
                ("prop_set", 8),
                ("prop_group", 12),
                ("prop_index", 12),
                ("palette", 8),
            ):
                self.write(width, getattr(prop, name))
        return 8

    def _write_entities(self, entities) -> int:
        """Write a list of entities, returns the segment flag for it"""
        if not entities:
            return 0

        extra_names = []
        self.write(16, len(entities))
        for id_num, x, y, entity in entities:
            name = entity.etype
            self.write(32, id_num)
            if name == "entity" or name[:2] == "z_":
                extra_names.append(name)
                name = "entity"
            self.write_6bit_str(name)
            for pos in (x, y):
                self.write_float(32, 8, pos)
            self.write(16, entity.rotation)
            self.write(8, entity.layer)
            for bit in (not entity.flip_x, not entity.flip_y, bool(entity.visible)):
                self.write(1, int(bit))
            self.write_variable(VariableStruct(entity.variables))

        # The names start at any bit but fill whole bytes of their own.
        names_start = self.bit_tell()
        with DFWriter(io.BytesIO()) as names_writer:
            for name in extra_names:
                names_writer.write_6bit_str(name)
            names_writer.align()
            names = names_writer.data.getvalue()
        self.write_bytes(names)
        self.align()
        self.write(32, self.bit_tell() - names_start)
        return 4

    def _write_region(self, x'''),
    ("dfwriter.py", '''        header_size = 160 + self._METADATA_BIT_SIZE + len(level.sshot) * 8

        self.bit_seek(start_index + header_size)
''', '''        sshot = bytes(level.sshot)
        header_bits = 8 * len(b"DF_LVL") + 16 + 32 + 32 + 32
        header_bits += self._METADATA_BIT_SIZE + 8 * len(sshot)
        self.bit_seek(start_index + header_bits)
'''),
    ("dfwriter.py", '''        region_offsets = []

        # Write the region data
        for rx, ry in rmap.get_region_keys():
            self.align()
            region_offsets.append((self.bit_tell() - region_data_index) // 8)
            self._write_region(rx, ry, rmap.region_map[(rx, ry)])

        end_index = self.bit_tell()
''', '''
        def _emit():
            for key in rmap.get_region_keys():
                self.align()
                yield (self.bit_tell() - region_data_index) // 8
                self._write_region(*key, rmap.region_map[key])

        # Write the region data
        region_offsets = list(_emit())
        end_index = self.bit_tell()
'''),
    ("dfwriter.py", '''    for id_num, (x, y, entity) in level.entities.items():
        rmap.get_segment(int(x / 48), int(y / 48)).entities.append(
            (id_num, x, y, entity)
        )

    for id_num, (layer, x, y, prop) in level.props.items():
        rmap.get_segment(int(x / 48), int(y / 48)).props.append(
            (id_num, layer, x, y, prop)
        )
''', '''    def _at(x: float, y: float) -> Tuple[int, int]:
        return int(x / 48), int(y / 48)

    for id_num, entry in level.entities.items():
        rmap.get_segment(*_at(*entry[:2])).entities.append((id_num, *entry))

    for id_num, entry in level.props.items():
        rmap.get_segment(*_at(*entry[1:3])).props.append((id_num,) + entry)
'''),
]
SPECS["reader-d"] = [
    ("dfreader.py", '''            result: Dict[str, Variable] = {}
            while True:
                vtype = VariableType(self.read(4))
                if vtype == VariableType.NULL:
                    break

                var_name = self.read_6bit_str()
                if vtype != VariableType.STRING:
                    result[var_name] = self.read_variable(vtype)
                    continue

                var_value_ctns = []
                while True:
                    value_part = self.read_variable(vtype)
                    var_value_ctns.append(value_part.value)
                    if len(value_part.value) < max_width:
                        break

                    self.read(4)
                    self.read_6bit_str()

                result[var_name] = VariableString(b"".join(var_value_ctns))

            return VariableStruct(result)
''', '''            return VariableStruct(dict(self._read_members()))
'''),
    ("dfreader.py", '''    def read_variable_map(self) -> Dict[str, Variable]:
''', '''    def _read_members(self):
        """Yields (name, variable) of a struct up to its end"""
        while (vtype := VariableType(self.read(4))) is not VariableType.NULL:
            name = self.read_6bit_str()
            if vtype is VariableType.STRING:
                parts = list(self._read_long_string())
                yield name, VariableString(b"".join(parts))
            else:
                yield name, self.read_variable(vtype)

    def _read_long_string(self):
        """Yields the parts of a string of a struct"""
        while True:
            part = self.read_bytes(self.read(16))
            yield part
            if len(part) < 0xFFFF:
                return
            self.read(4)
            self.read_6bit_str()

    def read_variable_map(self) -> Dict[str, Variable]:
'''),
    ("dfreader.py", '''        if flags & 1:
            layers = self.read(8)
            for _ in range(layers):
                layer = self.read(8)
                tiles = self.read(10)

                for _ in range(tiles):
                    txpos = self.read(5)
                    typos = self.read(5)
                    shape = self.read(5)
                    tile_flags = self.read(3)
                    data = self.read_bytes(12)
                    level.tiles[(layer, xoffset + txpos, yoffset + typos)] = Tile(
                        TileShape(shape & 0x1F),
                        tile_flags=tile_flags,
                        _tile_data=data,
                    )
''', '''        if flags & 1:
            level.tiles.update(self._read_tiles(xoffset, yoffset))
'''),
    ("dfreader.py", '''    def read_region(self, level: Level) -> None:
''', '''    def _read_tiles(self, xoffset: int, yoffset: int):
        """Yields (key, tile) of the tile part of a segment"""
        for _ in range(self.read(8)):
            layer = self.read(8)
            for _ in range(self.read(10)):
                txpos, typos, shape, tile_flags = map(self.read, (5, 5, 5, 3))
                yield (layer, xoffset + txpos, yoffset + typos), Tile(
                    TileShape(shape),
                    tile_flags=tile_flags,
                    _tile_data=self.read_bytes(12),
                )

    def read_region(self, level: Level) -> None:
'''),
    ("dfreader.py", '''                # Default DF behavior is to overwrite repeated props
                level.props.pop(id_num, None)
                level.add_prop(
                    layer,
                    xpos,
                    ypos,
                    Prop(
                        layer_sub,
                        rotation,
                        flip_x,
                        flip_y,
                        scale,
                        prop_set,
                        prop_group,
                        prop_index,
                        palette,
                    ),
                    id_num=id_num,
                )
''', '''                prop = Prop(
                    layer_sub=layer_sub,
                    rotation=rotation,
                    flip_x=flip_x,
                    flip_y=flip_y,
                    scale=scale,
                    prop_set=prop_set,
                    prop_group=prop_group,
                    prop_index=prop_index,
                    palette=palette,
                )
                # Default DF behavior is to overwrite repeated props
                if id_num in level.props:
                    del level.props[id_num]
                level.add_prop(layer, xpos, ypos, prop, id_num)
'''),
    ("dfreader.py", '''        return {
            "version": version,
            "entityUid": entityUid,
            "propUid": propUid,
            "deprecatedSaveUid": deprecatedSaveUid,
            "regionUidDeprecated": regionUidDeprecated,
        }
''', '''        return dict(
            version=version,
            entityUid=entityUid,
            propUid=propUid,
            deprecatedSaveUid=deprecatedSaveUid,
            regionUidDeprecated=regionUidDeprecated,
        )
'''),
]
SPECS["level-d"] = [
    ("level.py", '''        prop_remap = {id_num: self._gen_id() for id_num in self.props}
        self.props = {prop_remap[id_num]: prop for id_num, prop in self.props.items()}

        entity_remap = {id_num: self._gen_id() for id_num in self.entities}
        self.entities = {
            entity_remap[id_num]: entity for id_num, entity in self.entities.items()
        }
        for _, _, entity in self.entities.values():
            entity.remap_ids(entity_remap)
''', '''        def _renumber(old):
            mapping = dict(zip(old, iter(self._gen_id, None)))
            return mapping, {mapping[key]: item for key, item in old.items()}

        _, self.props = _renumber(self.props)
        entity_remap, self.entities = _renumber(self.entities)
        for entry in self.entities.values():
            entry[-1].remap_ids(entity_remap)
''' if False else '''        def _renumber(old):
            mapping = {}
            for key in old:
                mapping[key] = self._gen_id()
            return mapping, {mapping[key]: item for key, item in old.items()}

        _, self.props = _renumber(self.props)
        entity_remap, self.entities = _renumber(self.entities)
        for entry in self.entities.values():
            entry[-1].remap_ids(entity_remap)
'''),
    ("level.py", '''        mx_id = max(
            init, max(self.props, default=init), max(self.entities, default=init)
        )
''', '''        mx_id = init
        for id_num in itertools.chain(self.props, self.entities):
            if id_num > mx_id:
                mx_id = id_num
'''),
    ("level.py", "import copy\nimport functools\n", "import copy\nimport functools\nimport itertools\n"),
    ("level.py", '''        self.tiles = dict(_transform_tiles())
        self.props = dict(_transform_props())
        self.entities = dict(_transform_entities())
''', '''        self.tiles, self.props, self.entities = map(
            dict, (_transform_tiles(), _transform_props(), _transform_entities())
        )
'''),
    ("level.py", '''        if self.parent is not None:
            return self.parent._gen_id()
        result = self._next_id
        self._next_id += 1
        return result
''', '''        root = self
        while root.parent is not None:
            root = root.parent
        root._next_id += 1
        return root._next_id - 1
'''),
    ("level.py", '''                    for dx, dy in ddirs:
                        ntile = self.tiles.get((layer, x + dx, y + dy))
                        if (
                            ntile is None
                            or tile.get_sprite_tuple() != ntile.get_sprite_tuple()
                        ):
                            continue

                        nedge_data = ntile.edge_data[side]
                        if not nedge_data.visible:
                            continue

                        nvert_a = SHAPE_VERTEXES[ntile.shape][(cw_ind + 1 - dr) & 0x3]
                        nvert_b = SHAPE_VERTEXES[ntile.shape][(cw_ind + dr) & 0x3]
                        nvert_a = (nvert_a[0] + dx * 2, nvert_a[1] + dy * 2)
                        nvert_b = (nvert_b[0] + dx * 2, nvert_b[1] + dy * 2)
                        if vert_b == nvert_a:
                            break
                    else:
                        # No joiner
                        caps[dr] = True
                        angles[dr] = 0
                        filth_caps[dr] = bool(edge_data.filth_sprite_set)
                        filth_angles[dr] = 0
                        continue
''', '''                    joiner = next(
                        self._joiners((layer, x, y), side, dr, vert_b, ddirs), None
                    )
                    if joiner is None:
                        caps[dr] = True
                        filth_caps[dr] = bool(edge_data.filth_sprite_set)
                        continue
                    nedge_data, nvert_a, nvert_b = joiner
'''),
    ("level.py", '''    def calculate_edge_caps(self) -> None:
''', '''    def _joiners(self, key, side, dr, end, ddirs):
        """Yields (edge, start, end) of the edges that continue an edge"""
        layer, x, y = key
        sprite = self.tiles[key].get_sprite_tuple()
        cw_ind = SIDE_CLOCKWISE_INDEX[side]
        for dx, dy in ddirs:
            ntile = self.tiles.get((layer, x + dx, y + dy))
            if ntile is None or ntile.get_sprite_tuple() != sprite:
                continue
            if not ntile.edge_data[side].visible:
                continue
            verts = [
                (vx + 2 * dx, vy + 2 * dy) for vx, vy in SHAPE_VERTEXES[ntile.shape]
            ]
            first, last = verts[(cw_ind + 1 - dr) % 4], verts[(cw_ind + dr) % 4]
            if first == end:
                yield ntile.edge_data[side], first, last

    def calculate_edge_caps(self) -> None:
'''),
]
SPECS["tile-d"] = [
    ("tile.py", '''        oshape = self.shape
        flipped = mat.flipped
        if flipped:
            # horizontally flip
            if self.shape == TileShape.FULL:
                self.edge_data[TileSide.LEFT], self.edge_data[TileSide.RIGHT] = (
                    self.edge_data[TileSide.RIGHT],
                    self.edge_data[TileSide.LEFT],
                )
            elif self.shape <= TileShape.SMALL_8:
                # No need to fix edge data order as SHAPE_ORDERED_SIDES uniquely
                # maps the transformed sides to original sides.
                self.shape = TileShape(1 + ((self.shape - TileShape.BIG_1) ^ 8) % 16)
            else:
                # Flipping swaps clockwise direction so we do the same.
                s1 = SHAPE_ORDERED_SIDES[self.shape][1]
                s2 = SHAPE_ORDERED_SIDES[self.shape][2]
                self.edge_data[s1], self.edge_data[s2] = (
                    self.edge_data[s2],
                    self.edge_data[s1],
                )
                self.shape = TileShape(17 + ((self.shape - TileShape.HALF_A) ^ 3))

            # flips swap clockwise to counterclockwise, reverse directed data
            for edge in self.edge_data:
                edge.caps = edge.caps[::-1]
                edge.filth_caps = edge.filth_caps[::-1]
                edge.angles = (-edge.angles[1], -edge.angles[0])
                edge.filth_angles = (-edge.filth_angles[1], -edge.filth_angles[0])
''', '''        oshape = self.shape
        flipped = mat.flipped
        if flipped:
            self._flip()
'''),
    ("tile.py", '''    def upscale(self, factor: int) -> Generator''', '''    def _flip(self) -> None:
        """Flips the tile horizontally, keeping sides of slanted tiles in place"""
        edges = self.edge_data

        def _swap(a: int, b: int) -> None:
            edges[a], edges[b] = edges[b], edges[a]

        shape = self.shape
        if shape is TileShape.FULL:
            _swap(TileSide.LEFT, TileSide.RIGHT)
        elif shape > TileShape.SMALL_8:
            # Flipping swaps clockwise direction so we do the same.
            _swap(*SHAPE_ORDERED_SIDES[shape][1:3])
            self.shape = TileShape(TileShape.HALF_D + TileShape.HALF_A - shape)
        else:
            eight = TileShape.BIG_5 - TileShape.BIG_1
            below = shape < TileShape.BIG_5
            self.shape = TileShape(shape + (eight if below else -eight))

        # flips swap clockwise to counterclockwise, reverse directed data
        for edge in edges:
            edge.caps, edge.filth_caps = edge.caps[::-1], edge.filth_caps[::-1]
            start, end = edge.angles
            edge.angles = -end, -start
            start, end = edge.filth_angles
            edge.filth_angles = -end, -start

    def upscale(self, factor: int) -> Generator'''),
    ("tile.py", '''        for side, edge in enumerate(self.edge_data):
            sset, spike, caps, angles = (
                edge.filth_sprite_set,
                edge.filth_spike,
                edge.filth_caps,
                edge.filth_angles,
            )
            assert 0 <= sset <= 0xF
            assert -0x80 <= angles[0] <= 0x7F
            assert -0x80 <= angles[1] <= 0x7F

            # Normalize for Dustforce binary format
            if side in (TileSide.LEFT, TileSide.BOTTOM):
                caps = caps[::-1]
                angles = angles[::-1]

            off = 4 * side
            dust_data[off >> 3] |= (sset | (0x8 if spike else 0)) << (off & 0x7)
            dust_data[2 + side * 2] = angles[0] & 0xFF
            dust_data[3 + side * 2] = angles[1] & 0xFF
            if caps[0]:
                dust_data[10] |= 1 << (2 * side)
            if caps[1]:
                dust_data[10] |= 2 << (2 * side)

        return bytes(dust_data)
''', '''        for side, edge in zip(TileSide, self.edge_data):
            assert 0 <= edge.filth_sprite_set <= 0xF
            assert all(-0x80 <= angle <= 0x7F for angle in edge.filth_angles)

            # Normalize for Dustforce binary format
            step = -1 if side in (TileSide.LEFT, TileSide.BOTTOM) else 1
            nibble = int(edge.filth_sprite_set)
            if edge.filth_spike:
                nibble |= 8
            byte, high = divmod(side, 2)
            dust_data[byte] |= nibble << 4 if high else nibble
            for k, angle in enumerate(edge.filth_angles[::step]):
                dust_data[2 + 2 * side + k] = angle % 256
            for k, cap in enumerate(edge.filth_caps[::step]):
                dust_data[10] |= bool(cap) << (2 * side + k)

        return bytes(dust_data)
'''),
    ("tile.py", '''        return any(
            edge.filth_sprite_set != TileSpriteSet.NONE_0 for edge in self.edge_data
        )
''', '''        for edge in self.edge_data:
            if edge.filth_sprite_set:
                return True
        return False
'''),
]
SPECS["var-d"] = [
    ("variable.py", '''class VariableInt(Variable):
    """Represents a 32-bit signed int variable of type :class:`int`."""

    _vtype = VariableType.INT

    def __init__(self, value: int = 0) -> None:
        super().__init__(value)

    def _assert_types(self) -> None:
        """Ensure value is int in range."""
        assert isinstance(self.value, int) and -(2**31) <= self.value < 2**31


class VariableUInt(Variable):
    """Represents a 32-bit unsigned int variable of type :class:`int`."""

    _vtype = VariableType.UINT

    def __init__(self, value: int = 0) -> None:
        super().__init__(value)

    def _assert_types(self) -> None:
        """Ensure value is int in range."""
        assert isinstance(self.value, int) and 0 <= self.value < 2**32
''', '''class _IntMixin:
    """Shared checks of the two integer types"""

    _low = 0
    _high = 2**32 - 1

    def _assert_types(self) -> None:
        """Ensure value is int in range."""
        assert isinstance(self.value, int), "not an int"
        assert self._low <= self.value, "too small"
        assert self.value <= self._high, "too big"


class VariableInt(_IntMixin, Variable):
    """Represents a 32-bit signed int variable of type :class:`int`."""

    _vtype = VariableType.INT
    _low = -(1 << 31)
    _high = (1 << 31) - 1

    def __init__(self, value: int = 0) -> None:
        super().__init__(value)


class VariableUInt(_IntMixin, Variable):
    """Represents a 32-bit unsigned int variable of type :class:`int`."""

    _vtype = VariableType.UINT

    def __init__(self, value: int = 0) -> None:
        super().__init__(value)
'''),
    ("variable.py", '''        super().__init__(dict(value or {}))
''', '''        super().__init__({} if value is None else {**value})
'''),
    ("variable.py", '''        for elem in self.value[1]:
            assert isinstance(elem, self.value[0])
            elem._assert_types()
''', '''        etype, elems = self.value
        assert all(isinstance(elem, etype) for elem in elems)
        for elem in elems:
            elem._assert_types()
'''),
]
SPECS["entity-d"] = [
    ("entity.py", '''        subcls = cls._known_types.get(etype)
        if subcls is not None:
            return subcls(variables, rotation, layer, flip_x, flip_y, visible)
        entity = Entity(variables, rotation, layer, flip_x, flip_y, visible)
        entity.etype = etype
        return entity
''', '''        factory = cls._known_types.get(etype, Entity)
        entity = factory(
            variables=variables,
            rotation=rotation,
            layer=layer,
            flip_x=flip_x,
            flip_y=flip_y,
            visible=visible,
        )
        entity.etype = etype
        return entity
'''),
    ("entity.py", '''    def _set(self, val: T) -> None:
        """set the property"""
        self.variables[prop_name] = val if objtype else prop_type(val)

    def _del(self) -> None:
        """delete the property. Ignored if the property is not set."""
        self.variables.pop(prop_name, None)
''', '''    def _set(self, val: T) -> None:
        """set the property"""
        boxed = val
        if not objtype:
            boxed = prop_type(val)
        self.variables.update({prop_name: boxed})

    def _del(self) -> None:
        """delete the property. Ignored if the property is not set."""
        if prop_name in self.variables:
            del self.variables[prop_name]
'''),
    ("entity.py", '''        self.variables = copy.deepcopy(variables) if variables is not None else {}
''', '''        self.variables: Dict[str, Variable] = {}
        for key, var in (variables or {}).items():
            self.variables[key] = copy.deepcopy(var)
'''),
    ("prop.py", '''        self.layer_sub = layer_sub
        self.rotation = rotation
        self.flip_x = flip_x
        self.flip_y = flip_y
        self.scale = scale
        self.prop_set = prop_set
        self.prop_group = prop_group
        self.prop_index = prop_index
        self.palette = palette
''', '''        self.layer_sub, self.rotation = layer_sub, rotation
        self.flip_x, self.flip_y = flip_x, flip_y
        self.scale = scale
        self.prop_set, self.prop_group = prop_set, prop_group
        self.prop_index, self.palette = prop_index, palette
'''),
]
SPECS["cmd-d"] = [
    ("cmd/main.py", '''    util_map = {}
    for utility in UTILITIES:
        util = utility()  # type: ignore
        util_key = utility.__name__.lower()
        util.setup_parser(subparsers.add_parser(util_key))
        util_map[util_key] = util

    args = parser.parse_args()
    if args.utility is None:
        parser.print_help()
        return 0

    util = util_map[args.utility]
    del args.utility
    sys.exit(util.main(args))
''', '''    for utility in UTILITIES:
        util = utility()  # type: ignore
        util_parser = subparsers.add_parser(utility.__name__.lower())
        util.setup_parser(util_parser)
        util_parser.set_defaults(run=util.main)

    args = parser.parse_args()
    if not args.utility:
        parser.print_help()
        return 0

    return args.run(args) or 0
'''),
    ("cmd/thumbnail.py", '''        with DFReader(open(args.level, "rb")) as reader:
            level, region_offsets = reader.read_level_ex()
            region_data = b""
            if args.update:
                region_data = reader.read_bytes(region_offsets[-1])

        if not args.update:
            if not args.force and os.path.exists(args.image):
                print("path already exists, use --force to ignore")
                return 1

            with open(args.image, "wb") as fout:
                fout.write(level.sshot)

            return 0
''', '''        with open(args.level, "rb") as flevel, DFReader(flevel) as reader:
            level, region_offsets = reader.read_level_ex()
            region_data = reader.read_bytes(region_offsets[-1])

        if not args.update:
            mode = "wb" if args.force else "xb"
            try:
                with open(args.image, mode) as fout:
                    fout.write(level.sshot)
            except FileExistsError:
                print("path already exists, use --force to ignore", file=sys.stderr)
                return 1
            return 0
'''),
    ("cmd/variables.py", '''        json.dump(
            {
                "vars": jvars,
                "schema": schema,
            },
            sys.stdout,
            indent=args.indent if args.indent else None,
        )
''', '''        print(
            json.dumps({"vars": jvars, "schema": schema}, indent=args.indent or None)
        )
'''),
    ("cmd/save_convert.py", '''        key = LEVEL_KEYS.get(level, -1)
        if key == -1:
            continue
        if key > 0:
            keys_used[key - 1] += 1
''', '''        try:
            key = LEVEL_KEYS[level]
        except KeyError:
            continue
        if key:
            keys_used[key - 1] += 1
'''),
    ("cmd/save_convert.py", '''    new_stats["k_root"] = VariableArray(VariableString, [VariableString(b"")])
    new_stats["k_wood_used"] = VariableArray(VariableInt, [VariableInt(keys_used[0])])
    new_stats["k_silver_used"] = VariableArray(VariableInt, [VariableInt(keys_used[1])])
    new_stats["k_gold_used"] = VariableArray(VariableInt, [VariableInt(keys_used[2])])
    new_stats["k_red_used"] = VariableArray(VariableInt, [VariableInt(keys_used[3])])
    new_stats["k_ngplus"] = VariableArray(VariableBool, [VariableBool(False)])
''', '''    new_stats["k_root"] = VariableArray(VariableString, [VariableString(b"")])
    for colour, used in zip(("wood", "silver", "gold", "red"), keys_used):
        new_stats[f"k_{colour}_used"] = VariableArray(VariableInt, [VariableInt(used)])
    new_stats["k_ngplus"] = VariableArray(VariableBool, [VariableBool(False)])
'''),
]
SPECS["transform-d"] = [
    ("transform.py", '''        return self[0][0] * self[1][1] - self[0][1] * self[1][0]
''', '''        rows = [row[:2] for row in self][:2]
        return rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]
'''),
]
SPECS["replay-d"] = [
    ("dfwriter.py", '''                    if rep.version < intent_meta.version:
                        break
''', '''                    if intent_meta.version > rep.version:
                        continue
'''),
    ("dfwriter.py", '''                    # Remove unneeded default inputs at the end
                    if len(run_lengths) > 1 and run_lengths[-1][
                        1
                    ] == intent_meta.to_bits(intent_meta.default):
                        run_lengths.pop()
''', '''                    # Remove unneeded default inputs at the end
                    default_bits = intent_meta.to_bits(intent_meta.default)
                    *leading, (_, last_bits) = run_lengths
                    if leading and last_bits == default_bits:
                        run_lengths = leading
'''),
    ("dfwriter.py", '''            # Write the input section length back at the start.
            pos = sub_writer.bit_tell()
            sub_writer.bit_seek(0)
            sub_writer.write(32, (pos - 32) // 8)
            sub_writer.bit_seek(pos)
''', '''            # Write the input section length back at the start.
            _patch_length(sub_writer, 0)
'''),
    ("dfwriter.py", '''                    end_pos = sub_writer.bit_tell()
                    sub_writer.bit_seek(start_pos)
                    sub_writer.write(32, (end_pos - start_pos - 32) // 8)
                    sub_writer.bit_seek(end_pos)
''', '''                    _patch_length(sub_writer, start_pos)
'''),
    ("dfwriter.py", '''class DFWriter(BitIOWriter):
''', '''def _patch_length(writer: BitIOWriter, start_pos: int) -> None:
    """Fill in the 32 bit size of the block written from start_pos on"""
    end_pos = writer.bit_tell()
    writer.bit_seek(start_pos)
    writer.write(32, (end_pos - start_pos) // 8 - 4)
    writer.bit_seek(end_pos)


class DFWriter(BitIOWriter):
'''),
]
SPECS["gen-reader"] = [
    ("dfreader.py", '''import io
import zlib
from typing import Any, Dict, List, Optional, Tuple
''', '''import contextlib
import io
import zlib
from functools import partial
from typing import Any, Dict, Iterator, List, Optional, Tuple
'''),
    ("dfreader.py", '''class DFReader(BitIOReader):
    """Helper class to read Dustforce binary files"""
''', '''_ALPHABET = (
    [chr(ord("0") + i) for i in range(10)]
    + [chr(ord("A") + i) for i in range(26)]
    + ["_"]
    + [chr(ord("a") + i) for i in range(26)]
    + ["{"]
)


class DFReader(BitIOReader):
    """Helper class to read Dustforce binary files"""

    def _fields(self, *widths: int) -> Iterator[int]:
        """Read one unsigned number per width"""
        return map(self.read, widths)

    def _members(self) -> Iterator[Tuple[str, Variable]]:
        """Read the (name, value) pairs of a struct up to its terminator"""
        for tag in iter(partial(self.read, 4), int(VariableType.NULL)):
            vtype = VariableType(tag)
            var_name = self.read_6bit_str()
            if vtype == VariableType.STRING:
                yield var_name, VariableString(b"".join(self._parts()))
            else:
                yield var_name, self.read_variable(vtype)

    def _parts(self) -> Iterator[bytes]:
        """Read the continuations of a string within a struct"""
        part = self.read_variable(VariableType.STRING).value
        while len(part) >= 2**16 - 1:
            yield part
            self.read(4)
            self.read_6bit_str()
            part = self.read_variable(VariableType.STRING).value
        yield part

    def _dusts(self) -> Iterator[Tuple[int, int, bytes]]:
        """Read the dust records of a segment"""
        for _ in range(self.read(10)):
            txpos, typos = self._fields(5, 5)
            yield txpos, typos, self.read_bytes(12)

    def _tiles(self) -> Iterator[Tuple[int, int, int, Tile]]:
        """Read the tile records of a segment"""
        for _ in range(self.read(8)):
            layer, tiles = self._fields(8, 10)
            for _ in range(tiles):
                txpos, typos, shape, tile_flags = self._fields(5, 5, 5, 3)
                yield layer, txpos, typos, Tile(
                    TileShape(shape),
                    tile_flags=tile_flags,
                    _tile_data=self.read_bytes(12),
                )

    @contextlib.contextmanager
    def _block(self, size: int) -> Iterator[None]:
        """Continue size bytes after the current position on exit"""
        end = self.bit_tell() + size * 8
        yield
        self.bit_seek(end)
'''),
    ("dfreader.py", '''        ln = self.read(6)
        chrs = []
        for _ in range(ln):
            v = self.read(6)
            if v < 10:
                chrs.append(chr(ord("0") + v))
            elif v < 36:
                chrs.append(chr(ord("A") + v - 10))
            elif v == 36:
                chrs.append("_")
            elif v < 63:
                chrs.append(chr(ord("a") + v - 37))
            else:
                chrs.append("{")
        return "".join(chrs)
''', '''        return "".join(_ALPHABET[self.read(6)] for _ in range(self.read(6)))
'''),
    ("dfreader.py", '''            result: Dict[str, Variable] = {}
            while True:
                vtype = VariableType(self.read(4))
                if vtype == VariableType.NULL:
                    break

                var_name = self.read_6bit_str()
                if vtype != VariableType.STRING:
                    result[var_name] = self.read_variable(vtype)
                    continue

                var_value_ctns = []
                while True:
                    value_part = self.read_variable(vtype)
                    var_value_ctns.append(value_part.value)
                    if len(value_part.value) < max_width:
                        break

                    self.read(4)
                    self.read_6bit_str()

                result[var_name] = VariableString(b"".join(var_value_ctns))

            return VariableStruct(result)
''', '''            return VariableStruct(dict(self._members()))
'''),
    ("dfreader.py", '''            layers = self.read(8)
            for _ in range(layers):
                layer = self.read(8)
                tiles = self.read(10)

                for _ in range(tiles):
                    txpos = self.read(5)
                    typos = self.read(5)
                    shape = self.read(5)
                    tile_flags = self.read(3)
                    data = self.read_bytes(12)
                    level.tiles[(layer, xoffset + txpos, yoffset + typos)] = Tile(
                        TileShape(shape & 0x1F),
                        tile_flags=tile_flags,
                        _tile_data=data,
                    )
''', '''            level.tiles.update(
                ((layer, xoffset + txpos, yoffset + typos), tile)
                for layer, txpos, typos, tile in self._tiles()
            )
'''),
    ("dfreader.py", '''            dusts = self.read(10)
            for _ in range(dusts):
                txpos = self.read(5)
                typos = self.read(5)
                data = self.read_bytes(12)
                tile = level.tiles.get((19, xoffset + txpos, yoffset + typos))
                if tile is not None:
                    tile._unpack_dust_data(data)
''', '''            for txpos, typos, data in self._dusts():
                with contextlib.suppress(KeyError):
                    tile = level.tiles[19, xoffset + txpos, yoffset + typos]
                    tile._unpack_dust_data(data)
'''),
    ("dfreader.py", '''                    intent_len = sub_reader.read(32)
                    next_pos = sub_reader.bit_tell() + intent_len * 8
                    intent_values = player.intents.setdefault(
                        replay.IntentStream(intent), []
                    )

                    first = True
                    state = intent_meta.default
                    while True:
                        if sub_reader.bit_tell() >= len(input_data) * 8:
                            raise LevelParseException("unterminated replay inputs")
                        count = sub_reader.read(8)
                        if count == 0xFF:
                            break
                        if not first:
                            count += 1
                        first = False
                        intent_values.extend(state for _ in range(count))
                        state = intent_meta.to_repr(sub_reader.read(intent_meta.bits))

                    sub_reader.bit_seek(next_pos)
''', '''                    intent_len = sub_reader.read(32)
                    intent_values = player.intents.setdefault(
                        replay.IntentStream(intent), []
                    )
                    with sub_reader._block(intent_len):
                        for state, count in _runs(
                            sub_reader, intent_meta, len(input_data) * 8
                        ):
                            intent_values.extend([state] * count)
'''),
    ("dfreader.py", '''def read_level(data: bytes) -> Level:
    """Convenience''', '''def _runs(reader: DFReader, meta, end: int):
    """Read the (state, frames) runs of an intent stream"""
    first, state = True, meta.default
    while True:
        if reader.bit_tell() >= end:
            raise LevelParseException("unterminated replay inputs")
        count = reader.read(8)
        if count == 0xFF:
            return
        yield state, count if first else count + 1
        first, state = False, meta.to_repr(reader.read(meta.bits))


def read_level(data: bytes) -> Level:
    """Convenience'''),
]
SPECS["gen-writer"] = [
    ("dfwriter.py", '''import io
import itertools
''', '''import contextlib
import io
import itertools
'''),
    ("dfwriter.py", '''def _compute_region_map(level: Level) -> _RegionMap:
''', '''def _chunks(text: bytes, size: int = (1 << 16) - 1):
    """Split a string in continuations, the last one shorter than size"""
    start = 0
    while len(text) - start >= size:
        yield VariableString(text[start : start + size])
        start += size
    yield VariableString(text[start:])


def _compute_region_map(level: Level) -> _RegionMap:
'''),
    ("dfwriter.py", '''                    xs = x.value
                    for i in range(0, 1 + len(xs) // max_width):
                        self.write_variable(
                            VariableString(xs[i * max_width : (i + 1) * max_width])
                        )
''', '''                    for chunk in _chunks(x.value):
                        self.write_variable(chunk)
'''),
    ("dfwriter.py", '''                xs = elem_var.value
                for i in range(0, 1 + len(xs) // max_width):
                    self.write(4, elem_var._vtype)
                    self.write_6bit_str(elem_key)
                    self.write_variable(
                        VariableString(xs[i * max_width : (i + 1) * max_width])
                    )
''', '''                for _, chunk in enumerate(_chunks(elem_var.value)):
                    self._write_member(elem_key, chunk)
'''),
    ("dfwriter.py", '''                if not isinstance(elem_var, VariableString):
                    self.write(4, elem_var._vtype)
                    self.write_6bit_str(elem_key)
                    self.write_variable(elem_var)
                    continue
''', '''                if not isinstance(elem_var, VariableString):
                    self._write_member(elem_key, elem_var)
                    continue
'''),
    ("dfwriter.py", '''    def _write_segment(self, seg_x: int, seg_y: int, segment: _LevelSegment) -> None:
''', '''    def _write_member(self, name: str, var: Variable) -> None:
        """Write a member of a struct"""
        self.write(4, var._vtype)
        self.write_6bit_str(name)
        self.write_variable(var)

    @contextlib.contextmanager
    def _at(self, pos: int):
        """Write somewhere else for a while"""
        here = self.bit_tell()
        self.bit_seek(pos)
        try:
            yield here
        finally:
            self.bit_seek(here)

    def _write_segment(self, seg_x: int, seg_y: int, segment: _LevelSegment) -> None:
'''),
    ("dfwriter.py", '''            # Write the input section length back at the start.
            pos = sub_writer.bit_tell()
            sub_writer.bit_seek(0)
            sub_writer.write(32, (pos - 32) // 8)
            sub_writer.bit_seek(pos)
''', '''            # Write the input section length back at the start.
            with sub_writer._at(0) as pos:
                sub_writer.write(32, (pos - 32) // 8)
'''),
    ("dfwriter.py", '''                    end_pos = sub_writer.bit_tell()
                    sub_writer.bit_seek(start_pos)
                    sub_writer.write(32, (end_pos - start_pos - 32) // 8)
                    sub_writer.bit_seek(end_pos)
''', '''                    with sub_writer._at(start_pos) as end_pos:
                        sub_writer.write(32, (end_pos - start_pos - 32) // 8)
'''),
]
SPECS["all-gen"] = SPECS["gen-reader"] + SPECS["gen-writer"]
