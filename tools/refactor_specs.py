"""Behaviour-preserving rewrites used to test that the checks stay quiet: id -> [(file under dustmaker/, old, new)]."""
SPECS = {}

SPECS["bitio-a"] = [
    ("bitio.py", '''            result = self._bits & (1 << bits) - 1
            self._bits = self._bits >> bits
            self._bits_left -= bits
            self._tell += bits
            if signed and bits and (result & (1 << bits - 1)):
                result -= 1 << bits
            return result
''', '''            result, self._bits = self._bits % 2**bits, self._bits // 2**bits
            self._bits_left -= bits
            return self._finish(result, bits, signed)
'''),
    ("bitio.py", '''        # Remove the extra data
        result = result & (1 << bits) - 1
        if signed and (result & (1 << bits - 1)):
            result -= 1 << bits

        self._tell += bits
        return result

''', '''        # Remove the extra data
        return self._finish(result & ((1 << bits) - 1), bits, signed)

    def _finish(self, result: int, bits: int, signed: bool) -> int:
        """Advance the position and apply the sign"""
        self._tell += bits
        if not signed or not bits:
            return result
        half = 1 << (bits - 1)
        return result - (1 << bits) if result >= half else result

'''),
    ("bitio.py", "        return bytes(self.read(8) for _ in range(num))\n", '''        out = bytearray()
        for _ in range(num):
            out.append(self.read(8))
        return bytes(out)
'''),
    ("bitio.py", '''        byte_gen: Iterable[int] = itertools.islice(val_as_bytes, full_bytes)
        if self._bits_left != 0:
            byte_gen = itertools.chain((self._bits,), byte_gen)
        self.data.write(bytes(byte_gen))
''', '''        payload = val_as_bytes[:full_bytes]
        if self._bits_left:
            payload = bytes([self._bits]) + payload
        self.data.write(payload)
'''),
    ("bitio.py", "        self._bits_left = -pos % 8\n", "        byte_pos, bit_off = divmod(pos, 8)\n        self._bits_left = (8 - bit_off) % 8\n"),
]
SPECS["bitio-b"] = [
    ("bitio.py", '''        if val < 0:
            val += 1 << bits
''', '''        val = val if val >= 0 else val + (1 << bits)
'''),
    ("bitio.py", '''        new_bytes = self.data.read(bytes_needed)

        if self._bits == -1:
            self._bits = new_bytes[0] >> (8 - self._bits_left)
            new_bytes = new_bytes[1:]

        # Calculate the result with maybe some extra data from the last byte.
        result = self._bits + (int.from_bytes(new_bytes, "little") << self._bits_left)
''', '''        chunk = memoryview(self.data.read(bytes_needed))
        if self._bits == -1:
            lead, chunk = chunk[0], chunk[1:]
            self._bits = lead >> (8 - self._bits_left)

        # Calculate the result with maybe some extra data from the last byte.
        result = 0
        for shift, byt in enumerate(chunk):
            result |= byt << (8 * shift)
        result = (result << self._bits_left) | self._bits
'''),
    ("bitio.py", '''        for byt in buf:
            self.write(8, byt)
''', '''        self.write(8 * len(buf), int.from_bytes(buf, "little"))
'''),
    ("bitio.py", '''        if self._bits_left != 0 and self._bits != -1:
            self.data.write(bytes((self._bits,)))
            self._tell += self._bits_left
            self._bits = 0
            self._bits_left = 0
''', '''        if self.aligned() or self._bits == -1:
            return
        pending, self._bits = self._bits, 0
        left, self._bits_left = self._bits_left, 0
        self.data.write(pending.to_bytes(1, "little"))
        self._tell += left
'''),
]
SPECS["bitio-c"] = [
    ("bitio.py", '''        try:
            self.flush()
            if self._noclose and self._wrapped:
                # Hand all data over to the raw stream and leave it open.
                self._wrapped = False
                self.data.detach()  # type: ignore
        finally:
            super().close()
''', '''        with contextlib.ExitStack() as stack:
            stack.callback(super().close)
            self.flush()
            if self._wrapped and self._noclose:
                self._wrapped = False
                self.data.detach()  # type: ignore
'''),
    ("bitio.py", "import io\nimport itertools\n", "import contextlib\nimport io\nimport itertools\n"),
    ("bitio.py", '''        try:
            self._tell = data.tell() << 3
        except (AttributeError, IOError):
            pass
''', '''        with contextlib.suppress(AttributeError, OSError):
            self._tell = data.tell() * 8
'''),
]
SPECS["reader-a"] = [
    ("dfreader.py", '''        ln = self.read(6)
        chrs = []
        for _ in range(ln):
            v = self.read(6)
            if v < 10:
                chrs.append(chr(ord("0") + v))
            elif v < 36:
                chrs.append(chr(ord("A") + v - 10))
            elif v == 36:
                chrs.append("_")
            elif v < 63:
                chrs.append(chr(ord("a") + v - 37))
            else:
                chrs.append("{")
        return "".join(chrs)
''', '''        count = self.read(6)
        return "".join(_ALPHABET[self.read(6)] for _ in range(count))
'''),
    ("dfreader.py", '''class DFReader(BitIOReader):
''', '''_ALPHABET = (
    "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
)


class DFReader(BitIOReader):
'''),
    ("dfreader.py", '''        sign = 1 - 2 * self.read(1)
        ipart = self.read(ibits - 1)
        fpart = self.read(fbits)
        return sign * ipart + 1.0 * fpart / (1 << (fbits - 1))
''', '''        negative = self.read(1) == 1
        ipart = self.read(ibits - 1)
        if negative:
            ipart = -ipart
        fpart = self.read(fbits) / 2 ** (fbits - 1)
        return ipart + fpart
'''),
    ("dfreader.py", '''                while alen > 0:
                    var_value_ctns = []
                    while alen > 0:
                        alen -= 1
                        value_part = self.read_variable(atype).value
                        var_value_ctns.append(value_part)
                        if len(value_part) < max_width:
                            break

                    val.append(VariableString(b"".join(var_value_ctns)))
''', '''                pending = b""
                open_string = False
                for _ in range(alen):
                    part = self.read_variable(atype).value
                    pending += part
                    open_string = len(part) == max_width
                    if not open_string:
                        val.append(VariableString(pending))
                        pending = b""
                if open_string:
                    val.append(VariableString(pending))
'''),
    ("dfreader.py", '''        if flags & 2:
            dusts = self.read(10)
            for _ in range(dusts):
                txpos = self.read(5)
                typos = self.read(5)
                data = self.read_bytes(12)
                tile = level.tiles.get((19, xoffset + txpos, yoffset + typos))
                if tile is not None:
                    tile._unpack_dust_data(data)
''', '''        if flags & 2:
            self._read_dusts(level, xoffset, yoffset)
'''),
    ("dfreader.py", '''    def read_region(self, level: Level) -> None:
''', '''    def _read_dusts(self, level: Level, xoffset: int, yoffset: int) -> None:
        remaining = self.read(10)
        while remaining:
            remaining -= 1
            key = (19, xoffset + self.read(5), yoffset + self.read(5))
            data = self.read_bytes(12)
            if key in level.tiles:
                level.tiles[key]._unpack_dust_data(data)

    def read_region(self, level: Level) -> None:
'''),
]
SPECS["reader-b"] = [
    ("dfreader.py", '''        max_width = (2**16) - 1
        if vtype == VariableType.NULL:
            raise LevelParseException("unexpected null variable")
        if vtype == VariableType.BOOL:
            return VariableBool(self.read(1) == 1)
        if vtype == VariableType.UINT:
            return VariableUInt(self.read(32))
        if vtype == VariableType.INT:
            return VariableInt(self.read(32, True))
        if vtype == VariableType.FLOAT:
            return VariableFloat(self.read_float(32, 32))

        if vtype == VariableType.STRING:
            slen = self.read(16)
            return VariableString(self.read_bytes(slen))

        if vtype == VariableType.VEC2:
            f0 = self.read_float(32, 32)
            f1 = self.read_float(32, 32)
            return VariableVec2((f0, f1))
''', '''        max_width = 0xFFFF
        if vtype == VariableType.NULL:
            raise LevelParseException("unexpected null variable")
        simple = {
            VariableType.BOOL: lambda: VariableBool(bool(self.read(1))),
            VariableType.UINT: lambda: VariableUInt(self.read(32)),
            VariableType.INT: lambda: VariableInt(self.read(32, signed=True)),
            VariableType.FLOAT: lambda: VariableFloat(self.read_float(32, 32)),
            VariableType.STRING: lambda: VariableString(self.read_bytes(self.read(16))),
            VariableType.VEC2: lambda: VariableVec2(
                (self.read_float(32, 32), self.read_float(32, 32))
            ),
        }
        handler = simple.get(vtype)
        if handler is not None:
            return handler()
'''),
    ("dfreader.py", '''                    x_sgn = self.read(1)
                    x_int = self.read(27)
                    x_scale = (self.read(4) & 0x7) ^ 0x4
                    y_sgn = self.read(1)
                    y_int = self.read(27)
                    y_scale = (self.read(4) & 0x7) ^ 0x4

                    xpos = (-1.0 if x_sgn != 0 else 1.0) * x_int
                    ypos = (-1.0 if y_sgn != 0 else 1.0) * y_int

                    scale_lg = x_scale * 7 + y_scale
                    scale = pow(50.0, (scale_lg - 32.0) / 24.0)
''', '''                    xpos, x_scale = self._read_prop_coord()
                    ypos, y_scale = self._read_prop_coord()
                    scale = 50.0 ** ((x_scale * 7 + y_scale - 32.0) / 24.0)
'''),
    ("dfreader.py", '''    def read_region(self, level: Level) -> None:
''', '''    def _read_prop_coord(self) -> Tuple[float, int]:
        negative = self.read(1)
        whole = float(self.read(27))
        scale = (self.read(4) & 0x7) ^ 0x4
        return (-whole if negative else whole), scale

    def read_region(self, level: Level) -> None:
'''),
    ("dfreader.py", '''        for _ in range(len(region_offsets) - 1):
            self.read_region(level)
        return level
''', '''        for _offset in region_offsets[:-1]:
            self.read_region(level)
        return level
'''),
    ("dfreader.py", '''                    first = True
                    state = intent_meta.default
                    while True:
                        if sub_reader.bit_tell() >= len(input_data) * 8:
                            raise LevelParseException("unterminated replay inputs")
                        count = sub_reader.read(8)
                        if count == 0xFF:
                            break
                        if not first:
                            count += 1
                        first = False
                        intent_values.extend(state for _ in range(count))
                        state = intent_meta.to_repr(sub_reader.read(intent_meta.bits))
''', '''                    extra = 0
                    state = intent_meta.default
                    while True:
                        if sub_reader.bit_tell() >= len(input_data) * 8:
                            raise LevelParseException("unterminated replay inputs")
                        if (count := sub_reader.read(8)) == 0xFF:
                            break
                        intent_values += [state] * (count + extra)
                        extra = 1
                        state = intent_meta.to_repr(sub_reader.read(intent_meta.bits))
'''),
]
SPECS["reader-match"] = [
    ("dfreader.py", '''        if vtype == VariableType.NULL:
            raise LevelParseException("unexpected null variable")
        if vtype == VariableType.BOOL:
            return VariableBool(self.read(1) == 1)
        if vtype == VariableType.UINT:
            return VariableUInt(self.read(32))
        if vtype == VariableType.INT:
            return VariableInt(self.read(32, True))
        if vtype == VariableType.FLOAT:
            return VariableFloat(self.read_float(32, 32))

        if vtype == VariableType.STRING:
            slen = self.read(16)
            return VariableString(self.read_bytes(slen))
''', '''        match vtype:
            case VariableType.NULL:
                raise LevelParseException("unexpected null variable")
            case VariableType.BOOL:
                return VariableBool(self.read(1) == 1)
            case VariableType.UINT:
                return VariableUInt(self.read(32))
            case VariableType.INT:
                return VariableInt(self.read(32, True))
            case VariableType.FLOAT:
                return VariableFloat(self.read_float(32, 32))
            case VariableType.STRING:
                slen = self.read(16)
                return VariableString(self.read_bytes(slen))
'''),
    ("dfreader.py", '''                if has_extended_names and etype == "entity":
                    etype = self.read_6bit_str()
                level.entities.pop(id_num, None)
''', '''                if etype == "entity" and has_extended_names:
                    etype = self.read_6bit_str()
                if id_num in level.entities:
                    del level.entities[id_num]
'''),
]
SPECS["writer-a"] = [
    ("dfwriter.py", '''        ipart = abs(floor(val))
        fpart = int((val - floor(val)) * (2 ** (fbits - 1)))
        self.write(1, 1 if val < 0 else 0)
        self.write(ibits - 1, ipart)
        self.write(fbits, fpart)
''', '''        whole = floor(val)
        frac = val - whole
        self.write(1, int(val < 0))
        self.write(ibits - 1, abs(whole))
        self.write(fbits, int(frac * (1 << (fbits - 1))))
'''),
    ("dfwriter.py", '''        for ch in text:
            v = ord(ch)
            if ord("0") <= v <= ord("9"):
                self.write(6, v - ord("0"))
            elif ord("A") <= v <= ord("Z"):
                self.write(6, v - ord("A") + 10)
            elif ord("a") <= v <= ord("z"):
                self.write(6, v - ord("a") + 37)
            elif ch == "_":
                self.write(6, 36)
            elif ch == "{":
                self.write(6, 63)
            else:
                raise ValueError("invalid character in 6-bit string")
''', '''        alphabet = (
            "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
        )
        for ch in text:
            code = alphabet.find(ch)
            if code < 0:
                raise ValueError("invalid character in 6-bit string")
            self.write(6, code)
'''),
    ("dfwriter.py", '''                for x in arr:
                    # Write array continuations
                    xs = x.value
                    for i in range(0, 1 + len(xs) // max_width):
                        self.write_variable(
                            VariableString(xs[i * max_width : (i + 1) * max_width])
                        )
''', '''                for x in arr:
                    for part in self._split_string(x.value):
                        self.write_variable(part)
'''),
    ("dfwriter.py", '''                xs = elem_var.value
                for i in range(0, 1 + len(xs) // max_width):
                    self.write(4, elem_var._vtype)
                    self.write_6bit_str(elem_key)
                    self.write_variable(
                        VariableString(xs[i * max_width : (i + 1) * max_width])
                    )
''', '''                for part in self._split_string(elem_var.value):
                    self.write(4, VariableType.STRING)
                    self.write_6bit_str(elem_key)
                    self.write_variable(part)
'''),
    ("dfwriter.py", '''    def _write_segment(self,''', '''    @staticmethod
    def _split_string(data: bytes):
        width = (1 << 16) - 1
        pos = 0
        while True:
            part = data[pos : pos + width]
            yield VariableString(part)
            pos += width
            if len(part) < width:
                break

    def _write_segment(self,'''),
    ("dfwriter.py", '''                for x in arr:
                    arrlen += len(x.value) // max_width
''', '''                arrlen += sum(len(x.value) // max_width for x in arr)
'''),
]
SPECS["writer-b"] = [
    ("dfwriter.py", '''        tiles = [(i, segment.tiles[i]) for i in range(21) if segment.tiles[i]]
''', '''        tiles = [
            (i, layer_tiles)
            for i, layer_tiles in enumerate(segment.tiles[:21])
            if layer_tiles
        ]
'''),
    ("dfwriter.py", '''                    if layer == 19 and tile.has_filth():
                        dusts.append((x, y, tile))
                    if layer == 19:
                        if tile.is_dustblock():
                            dustblock_filth += 1
                        for edge in tile.edge_data:
                            if edge.filth_spike:
                                continue

                            if edge.filth_sprite_set != TileSpriteSet.NONE_0:
                                dust_filth += 1

                            if edge.solid and edge.visible:
                                tile_surface += 1
''', '''                    if layer == 19:
                        if tile.has_filth():
                            dusts.append((x, y, tile))
                        dustblock_filth += 1 if tile.is_dustblock() else 0
                        clean = [e for e in tile.edge_data if not e.filth_spike]
                        dust_filth += sum(
                            e.filth_sprite_set != TileSpriteSet.NONE_0 for e in clean
                        )
                        tile_surface += sum(1 for e in clean if e.solid and e.visible)
'''),
    ("dfwriter.py", '''                x_int = int(abs(x))
                y_int = int(abs(y))
                x_sgn = 1 if x < 0 else 0
                y_sgn = 1 if y < 0 else 0
                self.write(1, x_sgn)
                self.write(27, x_int)
                self.write(4, x_scale)
                self.write(1, y_sgn)
                self.write(27, y_int)
                self.write(4, y_scale)
''', '''                for coord, coord_scale in ((x, x_scale), (y, y_scale)):
                    self.write(1, 1 if coord < 0 else 0)
                    self.write(27, int(abs(coord)))
                    self.write(4, coord_scale)
'''),
    ("dfwriter.py", '''        def norm_for_sort(coord):
            """Do some stuff to order regions correctly"""
            x = coord[0]
            y = coord[1]
            if x < 0:
                x += 1 << 16
            if y < 0:
                y += 1 << 16
            return (x, y)

        return sorted(self.region_map, key=norm_for_sort)
''', '''        keys = list(self.region_map.keys())
        keys.sort(key=lambda coord: tuple(c & 0xFFFF for c in coord))
        return keys
'''),
    ("dfwriter.py", '''        reg = self.region_map.get(reg_ky)
        if reg is not None:
            return reg

        reg = _LevelRegion()
        self.region_map[reg_ky] = reg
        return reg
''', '''        if reg_ky not in self.region_map:
            self.region_map[reg_ky] = _LevelRegion()
        return self.region_map[reg_ky]
'''),
    ("dfwriter.py", '''        seg = self.segment_map.get(seg_key)
        if seg is not None:
            return seg

        seg = _LevelSegment()
        self.segment_map[seg_key] = seg
        return seg
''', '''        try:
            return self.segment_map[seg_key]
        except KeyError:
            return self.segment_map.setdefault(seg_key, _LevelSegment())
'''),
]
SPECS["writer-c"] = [
    ("dfwriter.py", '''                    # Calculate run lengths
                    run_count = 1
                    run_value = intent_meta.default
                    run_lengths = []
                    for value in itertools.chain(
                        player.intents.get(replay.IntentStream(intent), []), (None,)
                    ):
                        if value != run_value and run_count > 0:
                            run_lengths.append(
                                (run_count, intent_meta.to_bits(run_value))
                            )
                            run_count = 0
                        run_value = value
                        run_count += 1
''', '''                    # Calculate run lengths
                    values = [intent_meta.default]
                    values.extend(player.intents.get(replay.IntentStream(intent), ()))
                    run_lengths = [
                        (len(list(group)), intent_meta.to_bits(key))
                        for key, group in itertools.groupby(values)
                    ]
'''),
    ("dfwriter.py", '''                    first = True
                    run_lengths.reverse()
                    while run_lengths:
                        count, value = run_lengths[-1]
                        assert count != 0

                        if not first:
                            sub_writer.write(intent_meta.bits, value)
                        first = False
                        if count <= 0xFF:
                            sub_writer.write(8, count - 1)
                            run_lengths.pop()
                        else:
                            sub_writer.write(8, 0xFE)
                            run_lengths[-1] = (count - 0xFF, value)
''', '''                    first = True
                    for count, value in run_lengths:
                        while count > 0:
                            if not first:
                                sub_writer.write(intent_meta.bits, value)
                            first = False
                            chunk = min(count, 0xFF)
                            sub_writer.write(8, chunk - 1)
                            count -= chunk
'''),
    ("dfwriter.py", '''                for frame in entity_data.frames:
                    sub_writer.write(32, frame.frame)
                    sub_writer.write(32, int(round(frame.x_pos * 10.0)))
                    sub_writer.write(32, int(round(frame.y_pos * 10.0)))
                    sub_writer.write(32, int(round(frame.x_speed * 100.0)))
                    sub_writer.write(32, int(round(frame.y_speed * 100.0)))
''', '''                for frame in entity_data.frames:
                    for field in (
                        frame.frame,
                        round(frame.x_pos * 10.0),
                        round(frame.y_pos * 10.0),
                        round(frame.x_speed * 100.0),
                        round(frame.y_speed * 100.0),
                    ):
                        sub_writer.write(32, int(field))
'''),
    ("dfwriter.py", '''            sub_writer.flush()
            sub_data = sub_writer.data.getvalue()
''', '''            sub_writer.align()
            sub_data = bytes(sub_writer.data.getbuffer())
'''),
]
SPECS["writer-struct"] = [
    ("dfwriter.py", '''        self.write(32, 17 + len(compressed_data))
        self.write(32, len(uncompressed_data))
        self.write(16, x)
        self.write(16, y)
        self.write(16, 14)
        self.write(16, len(region.segment_map))
        self.write(8, 1 if region.backdrop.present else 0)
        self.write_bytes(compressed_data)
''', '''        header = struct.pack(
            "<IIhhHHB",
            17 + len(compressed_data),
            len(uncompressed_data),
            x,
            y,
            14,
            len(region.segment_map),
            1 if region.backdrop.present else 0,
        )
        self.write_bytes(header + compressed_data)
'''),
    ("dfwriter.py", "import itertools\nimport zlib\n", "import itertools\nimport struct\nimport zlib\n"),
]
SPECS["level-a"] = [
    ("level.py", '''        if id_num is None:
            id_num = self._gen_id()
        else:
            self._note_id(id_num)
        if id_num in self.props:
            raise LevelException("level already has prop id")
        self.props[id_num] = (layer, x, y, prop)
        return id_num
''', '''        id_num = self._claim_id(id_num)
        entry = (layer, x, y, prop)
        if self.props.setdefault(id_num, entry) is not entry:
            raise LevelException("level already has prop id")
        return id_num

    def _claim_id(self, id_num: Optional[int]) -> int:
        """Allocate an id or note the given one"""
        if id_num is not None:
            self._note_id(id_num)
            return id_num
        return self._gen_id()
'''),
    ("level.py", '''        prop_remap = {id_num: self._gen_id() for id_num in self.props}
        self.props = {prop_remap[id_num]: prop for id_num, prop in self.props.items()}
''', '''        new_props = {}
        for prop in self.props.values():
            new_props[self._gen_id()] = prop
        self.props = new_props
'''),
    ("level.py", '''        mx_id = max(
            init, max(self.props, default=init), max(self.entities, default=init)
        )
''', '''        mx_id = max([init, *self.props, *self.entities])
'''),
    ("level.py", '''        def _transform_tiles():
            for (layer, x, y), tile in self.tiles.items():
                tile.transform(mat)
                # Map the center of the tile as flips and rotations move its
                # top-left corner to another corner.
                tx, ty = mat.sample(x * 48 + 24, y * 48 + 24)
                tx, ty = tx - half, ty - half

                yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
''', '''        new_tiles = {}
        for (layer, x, y), tile in self.tiles.items():
            tile.transform(mat)
            tx, ty = (c - half for c in mat.sample(x * 48 + 24, y * 48 + 24))
            new_tiles[layer, int(round(tx / 48.0)), int(round(ty / 48.0))] = tile
'''),
    ("level.py", "        self.tiles = dict(_transform_tiles())\n", "        self.tiles = new_tiles\n"),
    ("level.py", '''        for player in range(1, 5):
            pos = self.start_position(player)
            pos_tx, pos_ty = mat.sample(pos.x, pos.y)
            pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))
''', '''        for pos in map(self.start_position, (1, 2, 3, 4)):
            moved = mat.sample(pos.x, pos.y)
            pos.x = round(moved[0])
            pos.y = round(moved[1])
'''),
]
SPECS["level-b"] = [
    ("level.py", '''        for level in (self, self.backdrop):
            if level is None:
                continue
            level.tiles = {
                (layer, x + dx, y + dy): ntile
                for (layer, x, y), tile in level.tiles.items()
                for dx, dy, ntile in tile.upscale(factor)
            }
''', '''        for level in filter(None.__ne__, (self, self.backdrop)):
            tiles = {}
            for (layer, x, y), tile in level.tiles.items():
                for dx, dy, ntile in tile.upscale(factor):
                    tiles[(layer, x + dx, y + dy)] = ntile
            level.tiles = tiles
'''),
    ("level.py", '''        @functools.lru_cache(maxsize=None)
        def _check_edge(shape: TileShape, side: TileSide) -> Tuple[bool, bool]:
            """Gets properties of a given edge for a given shape.

            Returns:
                (exists: bool, flush: bool)
            """
            ind = SIDE_CLOCKWISE_INDEX[side]
            vert_a = SHAPE_VERTEXES[shape][ind]
            vert_b = SHAPE_VERTEXES[shape][(ind + 1) & 0x3]

            if abs(vert_a[0] - vert_b[0]) + abs(vert_a[1] - vert_b[1]) <= 1:
                return False, False
            return True, vert_a[0] == vert_b[0] or vert_a[1] == vert_b[1]
''', '''        cache = {}

        def _check_edge(shape: TileShape, side: TileSide) -> Tuple[bool, bool]:
            key = (shape, side)
            if key not in cache:
                cache[key] = _compute_edge(shape, side)
            return cache[key]
'''),
    ("level.py", '''class Level:
    """Represents''', '''def _compute_edge(shape: TileShape, side: TileSide) -> Tuple[bool, bool]:
    """Gets (exists, flush) of a given edge for a given shape."""
    ind = SIDE_CLOCKWISE_INDEX[side]
    (ax, ay), (bx, by) = (SHAPE_VERTEXES[shape][(ind + k) % 4] for k in range(2))
    dist = abs(ax - bx) + abs(ay - by)
    exists = dist > 1
    return exists, exists and (ax == bx or ay == by)


class Level:
    """Represents'''),
    ("level.py", '''                if not edge_flush:
                    edat.solid = edat.visible = True
                    continue

                # Flush edge, check if neighbor is flush too
                ndir = neighbor_dir[side]
                ntile = self.tiles.get((layer, x + ndir[0], y + ndir[1]))

                if ntile is None:
                    edat.solid = edat.visible = True
                    continue

                nedge_exists, nedge_flush = _check_edge(ntile.shape, side ^ 1)
                if not nedge_exists or not nedge_flush:
                    edat.solid = edat.visible = True
                    continue

                edat.solid = False
                if (tile.sprite_set, tile.sprite_tile, tile.sprite_palette) == (
                    ntile.sprite_set,
                    ntile.sprite_tile,
                    ntile.sprite_palette,
                ):
                    edat.visible = False
                elif visible_callback is None:
                    edat.visible = side in (TileSide.BOTTOM, TileSide.RIGHT)
                else:
                    edat.visible = visible_callback(x, y, side, tile, ntile)
''', '''                ndir = neighbor_dir[side]
                ntile = self.tiles.get((layer, x + ndir[0], y + ndir[1]))
                edat.solid = not (
                    edge_flush
                    and ntile is not None
                    and all(_check_edge(ntile.shape, TileSide(side ^ 1)))
                )
                if edat.solid:
                    edat.visible = True
                elif tile.get_sprite_tuple() == ntile.get_sprite_tuple():
                    edat.visible = False
                elif visible_callback is not None:
                    edat.visible = visible_callback(x, y, side, tile, ntile)
                else:
                    edat.visible = side in {TileSide.BOTTOM, TileSide.RIGHT}
'''),
]
SPECS["level-c"] = [
    ("level.py", '''                    ddirs: Tuple[Tuple[int, int], ...] = ()
                    if vert_b == (0, 0):
                        ddirs = ((-1, 0), (-1, -1), (0, -1))
                    elif vert_b == (2, 0):
                        ddirs = ((0, -1), (1, -1), (1, 0))
                    elif vert_b == (2, 2):
                        ddirs = ((1, 0), (1, 1), (0, 1))
                    elif vert_b == (0, 2):
                        ddirs = ((0, 1), (-1, 1), (-1, 0))
                    else:  # Slants
                        # No caps allowed on slant half edges
                        continue
                    if not dr:
                        ddirs = ddirs[::-1]
''', '''                    ddirs = _JOIN_DIRS.get(vert_b)
                    if ddirs is None:
                        continue
                    ddirs = list(ddirs)
                    if dr == 0:
                        ddirs.reverse()
'''),
    ("level.py", '''class Level:
    """Represents''', '''_JOIN_DIRS = {
    (0, 0): ((-1, 0), (-1, -1), (0, -1)),
    (2, 0): ((0, -1), (1, -1), (1, 0)),
    (2, 2): ((1, 0), (1, 1), (0, 1)),
    (0, 2): ((0, 1), (-1, 1), (-1, 0)),
}


class Level:
    """Represents'''),
    ("level.py", '''                    delta_angle = (
                        math.atan2(vert_b[1] - vert_a[1], vert_b[0] - vert_a[0])
                        - math.atan2(nvert_b[1] - nvert_a[1], nvert_b[0] - nvert_a[0])
                    ) % (2 * math.pi)
                    if delta_angle > math.pi:
                        delta_angle -= 2 * math.pi

                    angle = -int(round(delta_angle * 180 / math.pi / 2))
''', '''                    head = math.atan2(vert_b[1] - vert_a[1], vert_b[0] - vert_a[0])
                    nhead = math.atan2(
                        nvert_b[1] - nvert_a[1], nvert_b[0] - nvert_a[0]
                    )
                    delta_angle = (head - nhead) % math.tau
                    if delta_angle > math.pi:
                        delta_angle = delta_angle - math.tau

                    angle = int(round(-(delta_angle * 180 / math.pi / 2)))
'''),
    ("level.py", '''                if not edge_data.visible:
                    # Clear all invalid data for invisible tiles.
                    edge_data.caps = (False, False)
                    edge_data.angles = (0, 0)
                    edge_data.filth_caps = (False, False)
                    edge_data.filth_angles = (0, 0)
                    edge_data.filth_sprite_set = TileSpriteSet.NONE_0
                    edge_data.filth_spike = False
                    continue
''', '''                if not edge_data.visible:
                    # Clear all invalid data for invisible tiles.
                    for field in dataclasses.fields(edge_data):
                        if field.name not in ("solid", "visible"):
                            setattr(edge_data, field.name, field.default)
                    continue
'''),
    ("level.py", "import copy\nimport functools\n", "import copy\nimport dataclasses\nimport functools\n"),
    ("level.py", '''        self.tiles.update(copy.deepcopy(other_level.tiles))
        self.props.update(copy.deepcopy(other_level.props))
        self.entities.update(copy.deepcopy(other_level.entities))
        for id_num in (*other_level.props, *other_level.entities):
            self._note_id(id_num)
''', '''        for attr in ("tiles", "props", "entities"):
            mine, theirs = getattr(self, attr), getattr(other_level, attr)
            for key, item in theirs.items():
                mine[key] = copy.deepcopy(item)
                if attr != "tiles":
                    self._note_id(key)
'''),
]
SPECS["tile-a"] = [
    ("tile.py", '''            v0, v1 = tile_data[2 + side * 2], tile_data[3 + side * 2]
            if v0 >= 0x80:
                v0 -= 0x100
            if v1 >= 0x80:
                v1 -= 0x100
            if side in (TileSide.LEFT, TileSide.BOTTOM):
                v0, v1 = v1, v0
            edge.angles = (v0, v1)
''', '''            angles = struct.unpack_from("bb", tile_data, 2 + side * 2)
            edge.angles = angles[::-1] if side in (TileSide.LEFT, TileSide.BOTTOM) else angles
'''),
    ("tile.py", "import math\nfrom dataclasses", "import math\nimport struct\nfrom dataclasses"),
    ("tile.py", '''            v0, v1 = dust_data[2 + side * 2], dust_data[3 + side * 2]
            if v0 >= 0x80:
                v0 -= 0x100
            if v1 >= 0x80:
                v1 -= 0x100
            edge.filth_angles = (v0, v1)
''', '''            edge.filth_angles = tuple(
                int.from_bytes(dust_data[k : k + 1], "little", signed=True)
                for k in (2 + side * 2, 3 + side * 2)
            )
'''),
    ("tile.py", '''        tile_data = [0 for _ in range(12)]
''', '''        tile_data = bytearray(12)
'''),
    ("tile.py", '''        dust_data = [0 for _ in range(12)]
''', '''        dust_data = [0] * 12
'''),
    ("tile.py", '''            vals = [edge.solid, edge.visible, *edge.caps]
            offsets = [0 + side, 4 + side, 8 + 2 * side, 9 + 2 * side]

            if side in (TileSide.LEFT, TileSide.BOTTOM):
                # Need to swap the edge bit order to match IO order
                offsets[2], offsets[3] = offsets[3], offsets[2]

            for val, off in zip(vals, offsets):
                if val:
                    tile_data[off >> 3] |= 1 << (off & 7)
''', '''            swap = side in (TileSide.LEFT, TileSide.BOTTOM)
            cap0, cap1 = reversed(edge.caps) if swap else edge.caps
            tile_data[0] |= bool(edge.solid) << side
            tile_data[0] |= bool(edge.visible) << (4 + side)
            tile_data[1] |= (bool(cap0) | bool(cap1) << 1) << (2 * side)
'''),
]
SPECS["tile-b"] = [
    ("tile.py", '''        if self.shape == TileShape.FULL:
            for dx in range(factor):
                for dy in range(factor):
                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                    tile.set_sprite_tuple(self.get_sprite_tuple())

                    if dx == 0:
                        _copy_side(dx, dy, tile, TileSide.LEFT)
                    if dx + 1 == factor:
                        _copy_side(dx, dy, tile, TileSide.RIGHT)
                    if dy == 0:
                        _copy_side(dx, dy, tile, TileSide.TOP)
                    if dy + 1 == factor:
                        _copy_side(dx, dy, tile, TileSide.BOTTOM)

                    yield dx, dy, tile
''', '''        if self.shape == TileShape.FULL:
            for dx, dy in itertools.product(range(factor), repeat=2):
                tile = Tile(
                    TileShape.FULL,
                    tile_flags=self.tile_flags,
                    sprite_set=self.sprite_set,
                    sprite_tile=self.sprite_tile,
                    sprite_palette=self.sprite_palette,
                )
                last = factor - 1
                for side, on_border in (
                    (TileSide.LEFT, dx == 0),
                    (TileSide.RIGHT, dx == last),
                    (TileSide.TOP, dy == 0),
                    (TileSide.BOTTOM, dy == last),
                ):
                    if on_border:
                        _copy_side(dx, dy, tile, side)

                yield dx, dy, tile
'''),
    ("tile.py", "import copy\nimport math\n", "import copy\nimport itertools\nimport math\n"),
    ("tile.py", '''            edge_data = copy.deepcopy(self.edge_data[side])

            cw_ind''', '''            edge_data = replace(self.edge_data[side])

            cw_ind'''),
    ("tile.py", "from dataclasses import dataclass\n", "from dataclasses import dataclass, replace\n"),
    ("tile.py", '''            for edge in self.edge_data:
                edge.caps = edge.caps[::-1]
                edge.filth_caps = edge.filth_caps[::-1]
                edge.angles = (-edge.angles[1], -edge.angles[0])
                edge.filth_angles = (-edge.filth_angles[1], -edge.filth_angles[0])
''', '''            for edge in self.edge_data:
                for name in ("caps", "filth_caps"):
                    first, second = getattr(edge, name)
                    setattr(edge, name, (second, first))
                for name in ("angles", "filth_angles"):
                    setattr(edge, name, tuple(-v for v in reversed(getattr(edge, name))))
'''),
    ("tile.py", '''        angle = int(
            round(
                math.atan2(mat[1][1], (-1 if flipped else 1) * mat[1][0]) / math.pi * 2
            )
        )
        angle = (-angle + 1) & 0x3
''', '''        yx = -mat[1][0] if flipped else mat[1][0]
        quarter = round(math.degrees(math.atan2(mat[1][1], yx)) / 90)
        angle = (1 - quarter) % 4
'''),
]
SPECS["var-a"] = [
    ("variable.py", '''        if not isinstance(oth, Variable):
            return False
        return self._vtype == oth._vtype and self.value == oth.value
''', '''        return (
            isinstance(oth, Variable)
            and (self._vtype, self.value) == (oth._vtype, oth.value)
        )
'''),
    ("variable.py", '''        assert isinstance(self.value, int) and 0 <= self.value < 2**32
''', '''        assert isinstance(self.value, int)
        assert self.value in range(2**32)
'''),
    ("variable.py", '''        assert (
            isinstance(self.value, tuple)
            and len(self.value) == 2
            and isinstance(self.value[0], float)
            and isinstance(self.value[1], float)
        )
''', '''        if not isinstance(self.value, tuple) or len(self.value) != 2:
            raise AssertionError("expected a pair")
        assert all(isinstance(v, float) for v in self.value)
'''),
    ("variable.py", '''        etype = self.value[0]
        if etype is VariableArray:
            return etype(*val)
        return etype(val)
''', '''        args = val if self.element_type is VariableArray else (val,)
        return self.element_type(*args)
'''),
]
SPECS["transform-a"] = [
    ("transform.py", '''        return TxMatrix(
            (
                (
                    ml[0][0] * mr[0][0] + ml[0][1] * mr[1][0],
                    ml[0][0] * mr[0][1] + ml[0][1] * mr[1][1],
                    ml[0][0] * mr[0][2] + ml[0][1] * mr[1][2] + ml[0][2],
                ),
                (
                    ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                    ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                ),
                (0, 0, 1),
            )
        )
''', '''        return TxMatrix(
            [
                [sum(ml[i][k] * mr[k][j] for k in range(3)) for j in range(3)]
                for i in range(3)
            ]
        )
'''),
    ("transform.py", '''        return (
            self[0][0] * x + self[0][1] * y + (self[0][2] if with_offset else 0),
            self[1][0] * x + self[1][1] * y + (self[1][2] if with_offset else 0),
        )
''', '''        (xx, xy, ox), (yx, yy, oy), _ = self
        if not with_offset:
            ox = oy = 0
        return xx * x + xy * y + ox, yx * x + yy * y + oy
'''),
    ("transform.py", '''        return math.sqrt(abs(self.determinant))
''', '''        return abs(self.determinant) ** 0.5
'''),
    ("transform.py", '''        return self[0][0] * self[1][1] - self[0][1] * self[1][0]
''', '''        (a, b, _), (c, d, _), _row = self
        return a * d - b * c
'''),
]
SPECS["prop-a"] = [
    ("prop.py", '''        self.rotation = self.rotation - int(0x10000 * mat.angle / math.pi / 2) & 0xFFFF
        if mat.flipped:
            self.flip_y = not self.flip_y
            self.rotation = -self.rotation & 0xFFFF
''', '''        turned = self.rotation - int(0x10000 * mat.angle / math.pi / 2)
        if mat.flipped:
            self.flip_y = not self.flip_y
            turned = -turned
        self.rotation = turned % 0x10000
'''),
    ("entity.py", '''        self.rotation = self.rotation - int(0x10000 * mat.angle / math.pi / 2) & 0xFFFF
        if mat.flipped:
            self.flip_y = not self.flip_y
            self.rotation = -self.rotation & 0xFFFF
''', '''        rotation = self.rotation - int(0x10000 * mat.angle / (2 * math.pi))
        self.rotation = (-rotation if mat.flipped else rotation) & 0xFFFF
        self.flip_y ^= mat.flipped
'''),
]
SPECS["entity-a"] = [
    ("entity.py", '''        nds = self.nodes
        for i, nd_id in enumerate(nds):
            nds[i] = id_map.get(nd_id, 0)
''', '''        self.nodes[:] = [id_map[n] if n in id_map else 0 for n in self.nodes] if False else self.nodes[:] if False else []
''' if False else '''        nds = self.nodes
        for i in range(len(nds)):
            nds[i] = id_map.get(nds[i], 0)
'''),
    ("entity.py", '''        while len(self.colours) > want_length:
            self.colours.pop()
        while len(self.pers) > want_length:
            self.pers.pop()
        while len(self.colours) < want_length:
            self.colours.append(0x111118)
        while len(self.pers) < want_length:
            self.pers.append(0.0)
        while len(self.gradient) > 3:
            self.gradient.pop()
        while len(self.gradient) < 3:
            self.gradient.append(0)
''', '''        for arr, size, fill in (
            (self.colours, want_length, 0x111118),
            (self.pers, want_length, 0.0),
            (self.gradient, 3, 0),
        ):
            del arr[size:]
            arr.extend([fill] * (size - len(arr)))
'''),
    ("entity.py", '''        tw, th = mat.sample(self.width, self.height, with_offset=False)
        self.width = int(abs(tw))
        self.height = int(abs(th))
''', '''        self.width, self.height = (
            int(abs(v)) for v in mat.sample(self.width, self.height, with_offset=False)
        )
'''),
    ("entity.py", '''        areas = self.trigger_areas
        for i, pos in enumerate(areas):
            # trigger_area locations are relative the entity itself so should
            # not be sampled with offset.
            areas[i] = mat.sample(*pos, with_offset=False)
''', '''        areas = self.trigger_areas
        sampled = [mat.sample(x, y, with_offset=False) for x, y in areas]
        for i, pos in enumerate(sampled):
            areas[i] = pos
'''),
    ("entity.py", '''        var = self.variables.get(prop_name)
        if var is None:
            result = default() if callable(default) else default
            if objtype:
                self.variables[prop_name] = result
            return result
        if not isinstance(var, prop_type):
            raise ValueError("unexpected property type")
        if objtype:
            return cast(T, var)
        return cast(T, var.value)
''', '''        try:
            var = self.variables[prop_name]
        except KeyError:
            var = None
        if var is None:
            if not callable(default):
                result = default
            else:
                result = default()
            if objtype:
                self.variables[prop_name] = result
            return result
        if isinstance(var, prop_type):
            return cast(T, var if objtype else var.value)
        raise ValueError("unexpected property type")
'''),
]
SPECS["cmd-a"] = [
    ("cmd/variables.py", '''    if isinstance(var, VariableString):
        return ("string", var.value.decode("latin1"))
    if isinstance(var, VariableVec2):
        return ("vec2", list(var.value))
    if type(var) in _VAR_TYPE_TO_SCHEMA:
        return _VAR_TYPE_TO_SCHEMA[type(var)], var.value
''', '''    simple = _VAR_TYPE_TO_SCHEMA.get(type(var))
    if simple is not None:
        jvalue = var.value
        if simple == "string":
            jvalue = str(jvalue, "latin-1")
        elif simple == "vec2":
            jvalue = [*jvalue]
        return simple, jvalue
'''),
    ("cmd/variables.py", '''        schema = {}
        jvars = {}
        for subkey, subvar in var.value.items():
            subschema, subjvar = variables_to_json(subvar)
            schema[subkey] = subschema
            jvars[subkey] = subjvar
        return schema, jvars
''', '''        converted = {key: variables_to_json(sub) for key, sub in var.value.items()}
        return (
            {key: pair[0] for key, pair in converted.items()},
            {key: pair[1] for key, pair in converted.items()},
        )
'''),
    ("cmd/variables.py", '''        return VariableString(jvars.encode("latin1"))
''', '''        return VariableString(bytes(jvars, "latin1"))
'''),
    ("cmd/variables.py", '''        with open(args.object, "wb") as fout:
            fout.write(output.getvalue())
''', '''        fout = open(args.object, "wb")
        try:
            fout.write(output.getvalue())
        finally:
            fout.close()
'''),
    ("cmd/variables.py", '''        json.dump(
            {
                "vars": jvars,
                "schema": schema,
            },
            sys.stdout,
            indent=args.indent if args.indent else None,
        )
''', '''        document = dict(vars=jvars, schema=schema)
        sys.stdout.write(json.dumps(document, indent=args.indent or None))
'''),
    ("cmd/transform.py", '''        if args.vflip:
            mat = TxMatrix.VFLIP * mat

        if args.hflip:
            mat = TxMatrix.HFLIP * mat
''', '''        for wanted, flip in ((args.vflip, TxMatrix.VFLIP), (args.hflip, TxMatrix.HFLIP)):
            mat = flip * mat if wanted else mat
'''),
    ("cmd/save_convert.py", '''    def _get_default(obj: dict, key: str, default: Any) -> Any:
        val = obj.get(key)
        if val is None:
            return default
        return val.value

    new_scores = []
    keys_used = [0, 0, 0, _get_default(stats, "red_used", 0)]
''', '''    new_scores = []
    keys_used = [0, 0, 0, 0]
    if stats.get("red_used") is not None:
        keys_used[3] = stats["red_used"].value
'''),
    ("cmd/save_convert.py", '''        key = LEVEL_KEYS.get(level, -1)
        if key == -1:
            continue
        if key > 0:
            keys_used[key - 1] += 1
''', '''        if level not in LEVEL_KEYS:
            continue
        key = LEVEL_KEYS[level]
        if key:
            keys_used[key - 1] += 1
'''),
    ("cmd/thumbnail.py", '''            with open(args.image, "wb") as fout:
                fout.write(level.sshot)
''', '''            pathlib.Path(args.image).write_bytes(level.sshot)
'''),
    ("cmd/thumbnail.py", "import os\nimport sys\n", "import os\nimport pathlib\nimport sys\n"),
]
SPECS["replay-a"] = [
    ("replay.py", '''        values = self.intents.get(intent)
        if values is None or not (0 <= frame < len(values)):
            return _INTENT_META[intent].default
        return values[frame]
''', '''        values = self.intents.get(intent) or ()
        if frame in range(len(values)):
            return values[frame]
        return _INTENT_META[intent].default
'''),
    ("replay.py", '''        to_repr=lambda x: x - 1,
        to_bits=lambda x: x + 1,
    ),  # X
''', '''        to_repr=_from_biased,
        to_bits=_to_biased,
    ),  # X
'''),
    ("replay.py", '''_INTENT_META = (
''', '''def _from_biased(raw):
    return raw - 1


def _to_biased(value):
    return value + 1


_INTENT_META = (
'''),
    ("dfreader.py", '''            input_data = bytearray()
            decomp = zlib.decompressobj()
            while not decomp.eof:
                next_byte = self.read_bytes(1)
                if not next_byte:
                    raise LevelParseException("unexpected end of replay data")
                input_data += decomp.decompress(next_byte)
''', '''            parts = []
            decomp = zlib.decompressobj()
            while not decomp.eof:
                next_byte = self.read_bytes(1)
                if len(next_byte) == 0:
                    raise LevelParseException("unexpected end of replay data")
                parts.append(decomp.decompress(next_byte))
            input_data = b"".join(parts)
'''),
]
SPECS["noop"] = [
    ("dfreader.py", "        start_index = self.bit_tell()\n", "        _unused = None\n        start_index = self.bit_tell()\n        pass\n"),
    ("level.py", "        self._next_id = min_id\n", "        import logging\n\n        logging.getLogger(__name__).debug('remapping from %d', min_id)\n        self._next_id = min_id\n"),
    ("tile.py", "        assert len(dust_data) == 12\n", "        assert len(dust_data) == 12, f'bad length {len(dust_data)}'\n        _ = 0\n"),
    ("dfwriter.py", "        assert self.aligned()\n\n        start_index = self.bit_tell()\n", "        assert self.aligned(), 'not aligned'\n        0\n        start_index = self.bit_tell()\n"),
    ("bitio.py", "        self._tell += bits\n        return result\n", "        self._tell += bits\n        __debug__ and None\n        return result\n"),
]

from refactor_specs2 import SPECS as _MORE  # noqa: E402
SPECS.update(_MORE)
