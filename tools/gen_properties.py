#!/usr/bin/env python3
"""Authoring source of /verif/properties.jsonl (run by hand; not used by any check)."""
import json, os

P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": tests,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


B = "dustmaker/bitio.py"
R = "dustmaker/dfreader.py"
W = "dustmaker/dfwriter.py"
T = "dustmaker/tile.py"
L = "dustmaker/level.py"
X = "dustmaker/transform.py"
E_ = "dustmaker/entity.py"
V = "dustmaker/variable.py"
PR = "dustmaker/prop.py"
RP = "dustmaker/replay.py"

prop("C01", "Bit fields survive a write/read cycle at any alignment",
     "Integer fields and byte strings written through the bit writer are laid out contiguously, least significant bit first, at the current bit position whatever its alignment, and reading the same widths from the same positions returns exactly the values written; a signed read interprets the field's top bit as a sign, an unsigned read never does. The bit position reported after each operation equals the position before it plus the width of that operation. Negative values are written in two's complement of the field width.",
     ["inputs", "histories"], "every field width, every starting bit phase, every value, every interleaving of integer and byte operations",
     "The tests write a few hand-picked 6-bit strings and variables; they do not cover every (phase, width, sign) combination and no signed read inside a byte at all.",
     [B], [("BitIOReader.read / read_bytes", B), ("BitIOWriter.write / write_bytes", B)],
     [("pending bits", "bits of the current byte not yet produced/consumed", B)], ["BitIOReader.read", "BitIOWriter.write", "bit_tell"])
prop("C02", "Seek, skip, align and flush land on the exact bit and lose nothing",
     "After a seek or skip to any bit position the reader delivers the bits starting exactly there, and align advances reader and writer to the next byte boundary with position and data in agreement, also right after a seek. The writer stores its pending partial byte, zero padded, exactly once before it moves (seek, skip, align or flush), continues at the position it then reports, and refuses a seek to a non-byte position unless the caller explicitly allows it.",
     ["histories", "inputs"], "every sequence of reads/writes and repositioning operations, from every bit phase",
     "The tests seek the reader only to positions where 6-bit strings start and the writer only inside level files; they never align after a seek or continue after a flush.",
     [B], [("bit_seek / skip / align / flush", B)], (), ["bit_tell", "underlying stream bytes"])
prop("C03", "Closing a bit stream stores the pending bits once and honours ownership",
     "Closing a bit writer (explicitly or by leaving its with block, normally or through an exception) stores its pending bits exactly once, zero padded, and closes the underlying stream unless the caller asked to keep it open (at construction or by release), in which case the underlying stream stays open and holds the complete data. The underlying stream is closed even when storing the last bits fails, and closing a reader follows the same ownership rule.",
     ["fault_sequences", "histories"], "every pending-bit phase, every ownership setting, normal and exceptional exits, failure of the final write",
     "Tests close in-memory streams on the success path only.",
     [B], [("BitIO.close / release / __exit__", B), ("BitIOWriter.close", B)], (), ["underlying stream closed flag and bytes"])
prop("C04", "Every variable tree survives binary serialisation",
     "Writing any well-typed variable (booleans, 32-bit signed and unsigned integers, fixed-point floats, byte strings, 2-vectors, structs and arrays nested in any way, including empty ones) and reading it back with its type yields an equal variable of the same type, consuming exactly the bits written. Struct members keep their names and order.",
     ["inputs"], "all variable trees, at every bit alignment",
     "One fixed variable tree is round-tripped by the tests; arrays of arrays, arrays of booleans, vectors inside arrays and unaligned starts never are.",
     [R, W, V], [("DFReader.read_variable", R), ("DFWriter.write_variable", W), ("VariableType tags", V)], (), ["read_variable", "write_variable", "read_var_file", "write_var_file"])
prop("C05", "Oversized strings are split losslessly or refused, never truncated",
     "A byte string of any length held in a struct or in an array of strings is read back unchanged, including lengths at and around multiples of 65535, with neighbouring members intact. A bare string variable longer than 65535 bytes, an array needing more than 65535 entries (continuations included), a name longer than 63 characters and a name with a character outside [0-9A-Za-z_{] are refused with ValueError instead of being written damaged; every name inside those limits is written and read back unchanged.",
     ["inputs"], "all string lengths, array lengths, names",
     "The tests use two long strings whose lengths avoid the multiples of 65535 where a continuation is empty, and no oversized input.",
     [R, W], [("string continuations", W), ("6-bit strings", W)], (), ["write_variable", "read_variable", "write_6bit_str", "read_6bit_str"])
prop("C06", "Fixed-point numbers round-trip exactly and round down otherwise",
     "A number that the fixed-point format (sign, integer bits, fraction bits) can represent is read back exactly as written, negative numbers with a fractional part included. Any other number inside the range is read back as the largest representable number not above it.",
     ["inputs"], "all representable and non-representable floats in range for every (integer bits, fraction bits) pair used by the formats",
     "Tests round-trip three positive floats.",
     [R, W], [("read_float", R), ("write_float", W)], (), ["write_float", "read_float"])
prop("C07", "Tiles survive a level write/read unchanged and in place",
     "Every tile on layers 0 to 20 of a level or of its backdrop is read back at the same layer and coordinates (negative ones included) with the same shape, flags, sprite set/index/palette and, for each of its four edges, the same solidity, visibility, caps and angles. A collision-layer (19) tile carrying filth on any edge also gets back every edge's filth sprite set, spike flag, filth caps and filth angles.",
     ["inputs"], "all tile shapes, edge data, sprites, layers and coordinates, alone or together with other tiles",
     "The tests rewrite a single level file and only compare two outputs of the writer with each other, so a symmetric loss in reader or writer is invisible, as are values that file does not contain.",
     [R, W, T], [("_pack/_unpack_tile_data, _pack/_unpack_dust_data", T), ("read_segment", R), ("_write_segment, _compute_region_map", W)], (), ["write_level", "read_level"])
prop("C08", "Props survive a level write/read unchanged and in place",
     "Every prop of a level or of its backdrop is read back under the same id with the same layer, sublayer, whole-pixel position (sign included), rotation, flips, set, group, index, palette and (quantised) scale, independently of how many other props, tiles and entities share its segment.",
     ["inputs"], "all prop attribute values within their field widths, all positions, all quantised scales",
     "The tests never compare a prop read back with the prop written.",
     [R, W, PR], [("read_segment", R), ("_write_segment", W)], (), ["write_level", "read_level"])
prop("C09", "Entities survive a level write/read unchanged and in place",
     "Every entity of a level is read back under the same id with the same type name, position (to 1/128 pixel), rotation, layer, flips, visibility and variables, and as an instance of the class registered for its type name (the generic entity class if there is none). This includes types whose names are stored out of line (names beginning with z_ and the name 'entity'), in any mixture with ordinary types in the same segment.",
     ["inputs", "histories"], "all entity types, attribute values, positions and mixtures of inline and out-of-line names",
     "The sample level has no out-of-line names at all and the tests never compare entities with what was written.",
     [R, W, E_], [("read_segment", R), ("_write_segment", W), ("Entity._from_raw registry", E_)], (), ["write_level", "read_level"])
prop("C10", "Level metadata and opaque region data survive rewriting",
     "Level variables, the screenshot bytes and the id allocation floor are read back as written whatever regions the level has, and reading only the metadata gives the same variables and screenshot as reading everything. Rewriting a level through the extended API reproduces the region data and the region directory byte for byte, also when variables or screenshot changed size, and region data of the wrong total size is refused.",
     ["inputs"], "all variable maps, screenshots, region counts (zero included) and region payloads, at any start offset of the stream",
     "Tests rewrite one unchanged level at stream offset 0.",
     [R, W], [("read_level_ex / read_level", R), ("write_level_ex / _write_regions_raw", W)], (), ["write_level_ex", "read_level_ex"])
prop("C11", "Size, count and offset fields of written files tell the truth",
     "In every level file written, the file size, region count, each region directory offset, each region's compressed and uncompressed length and segment count and each segment's size equal what is actually in the file, and regions appear in ascending order of their unsigned 16-bit coordinates. In variable files the size field equals the number of bytes written, and in replay files the uncompressed size, the input section length and each input stream's length equal the data they describe.",
     ["inputs"], "all levels, variable maps and replays",
     "The package's own reader ignores most of these fields, so no read/write test can notice a wrong one; the game does use them.",
     [W], [("write_level_ex, _write_regions_from_level, _write_region, _write_segment", W), ("write_var_file", W), ("write_replay", W)], (), ["bytes written"])
prop("C12", "Segment completion totals count every tile edge and enemy",
     "For each segment written, the stored dust total is the number of collision-layer tile edges with non-spike filth, the surface total is the number of collision-layer edges that are solid, visible and not spiked, the dustblock total is the number of collision-layer tiles whose sprite is the dustblock of its set, and the enemy total is the sum of the filth values of the entities stored in it.",
     ["inputs"], "all levels",
     "Nothing in the package reads these totals back; only the game does.",
     [W, E_, T], [("_write_segment totals", W), ("Enemy.FILTH", E_), ("SPRITE_SET_DUSTBLOCK_TILE", T)], (), ["segment headers in the bytes written"])
prop("C13", "Replay inputs survive a write/read cycle",
     "For every player, every input stream supported by the replay's version and every frame, the input value obtained from a replay after writing and reading it equals the value before (values past the recorded end count as the neutral value), whatever the run lengths, including runs longer than 255 frames, streams that start with or end in neutral values, and empty or missing streams.",
     ["inputs"], "all input histories, all replay versions (1, 3, 4), any number of players",
     "The tests compare two outputs of the writer for one replay file; a value lost by both passes is invisible.",
     [R, W, RP], [("write_replay run-length encoder", W), ("read_replay run-length decoder", R), ("_INTENT_META", RP)], (), ["write_replay", "read_replay", "PlayerData.get_intent_value"])
prop("C14", "Replay metadata and desync data survive a write/read cycle",
     "Version, user name, level name, frame count, player characters and every entity's desync frames (frame number, position to 0.1, speed to 0.01) are read back as written for every supported version, with or without the user-name header and with or without the total length being given to the reader. Unsupported versions, player counts impossible for the version, and names too long for their length field are refused with an exception.",
     ["inputs", "configurations"], "all replays in versions 1, 3 and 4",
     "Tests cover one replay of one version and never compare with the original.",
     [R, W, RP], [("read_replay", R), ("write_replay", W)], (), ["write_replay", "read_replay"])
prop("C15", "Reading any input terminates, however truncated or malformed",
     "Reading a level, a replay, a variable file or any prefix of one always ends, either returning a value or raising an exception. A loop repeated by a count stored in the file ends after that many repetitions, and no other loop in the readers can keep spinning once the input is exhausted.",
     ["inputs", "fault_sequences"], "all byte strings, in particular every truncation of a valid file",
     "Tests read only complete, valid files.",
     [R, B], [("read_replay, read_variable, read_segment loops", R), ("BitIOReader.read at end of data", B)], (), ["read_level", "read_replay", "read_var_file"])
prop("C16", "Serialising or inspecting a model never changes it",
     "Writing a level, replay or variable leaves the object exactly as it was (content, ordering and id allocator), and so do read-only queries: entity, level and start-position accessors for scalar values, max-id calculation without reset, tile queries, string representations and comparisons. Writing the same object twice yields identical bytes.",
     ["inputs", "histories"], "all models and every public read-only operation",
     "Tests never compare a model before and after being written.",
     [W, L, E_, T], [("write_level / write_replay / write_variable", W), ("calculate_max_id", L), ("bind_prop getter", E_)], (), ["model object graphs before/after"])
prop("C17", "Prop and entity ids never collide and never get overwritten",
     "Adding a prop or entity without an id gives it one that is larger than every id the level or its backdrop was ever given through the add methods and not in use, and adding one with an id already used by the same kind is refused without changing the existing object. The computed maximum id is at least 100 and at least every id in use in level and backdrop, and computing it without reset, reading or writing a level and merging never make the allocator hand out an id in use.",
     ["histories"], "every sequence of add, remove, remap, merge, max-id, read and write operations on level and backdrop",
     "No test allocates ids.",
     [L, R], [("_gen_id / _note_id / add_prop / add_entity / calculate_max_id / remap_ids / merge", L)], [("next id", "id allocator", L)], ["returned ids", "level.props", "level.entities"])
prop("C18", "Remapping and merging keep references right and levels separate",
     "Remapping ids gives every prop and entity of level and backdrop a new distinct id from the requested minimum on while keeping positions and attributes, and every entity id stored inside an entity (camera links, puppet, end-flag list, key door, score-book list) follows the entity it named or becomes 0 when that entity does not exist. Merging adds all tiles, props and entities of the other level (and backdrop) with none of either level's props or entities lost, and afterwards changing either level never affects the other.",
     ["inputs", "histories"], "all levels, all id layouts including overlapping ids",
     "No test merges or remaps.",
     [L, E_], [("remap_ids / merge", L), ("Entity.remap_ids overrides", E_)], (), ["level.props", "level.entities", "entity variables"])
prop("C19", "Transformation matrices compose like the maps they stand for",
     "Multiplying two matrices gives the matrix of applying the right one first and the left one second, for every point, translations included; multiplying by a scalar scales the result of the map, translate adds an offset afterwards, and identity, flip and quarter-turn constants act as named (clockwise with y pointing down). Sampling without offset applies only the linear part, and determinant, flipped and scale agree with the linear part.",
     ["inputs"], "all affine matrices and points",
     "The tests use only pure flips and rotations, whose translation part is zero.",
     [X], [("TxMatrix.__mul__ / translate / sample / determinant", X)], (), ["TxMatrix"])
prop("C20", "Transforming a level moves all of its contents consistently",
     "Applying any combination of flips, quarter turns and whole-tile translations to a level moves tiles (as the squares they occupy), props, entities, start positions and position-bearing entity data (AI waypoints, key position: absolute; checkpoint areas, death-zone size: relative) by the same map, in the backdrop as well, with no tile, prop or entity lost or duplicated. A clockwise quarter turn adds 0x4000 to a prop's or entity's rotation, flips toggle its mirroring, and orientation composes: transforming by one map and then another equals transforming by their product.",
     ["inputs", "histories"], "all levels, the eight orientations and all whole-tile offsets",
     "Tests transform single tiles only.",
     [L, E_, PR, T, X], [("Level.transform", L), ("Entity.transform overrides", E_), ("Prop.transform", PR)], (), ["level contents after transform"])
prop("C21", "Transforming a tile is the exact geometric action on shape and edges",
     "For each of the 21 tile shapes and each of the eight flips/rotations (at any uniform scale), the resulting shape is the geometric image of the original and each edge's data ends up on the side that is the image of its original side, with the corner-paired data swapped and angles negated and swapped exactly when the map flips; sprite and flags are unchanged. Applying a map and then its inverse restores the tile.",
     ["inputs"], "21 shapes x 8 maps x all edge data",
     "Tests sample random edge data for particular shapes and never set filth sprites or spikes.",
     [T], [("Tile.transform", T), ("SHAPE_ORDERED_SIDES", T), ("SHAPE_VERTEXES", T)], (), ["Tile.transform"])
prop("C22", "Upscaling covers exactly the enlarged shape and keeps its outline",
     "Upscaling a tile by any factor yields tiles at distinct positions whose union is exactly the enlarged original shape, all with the original sprite and flags; every outline piece carries the edge data of the original side it lies on, with caps and angles kept only at the original corners and cleared at interior joints, and interior edges carry no data. Upscaling a level does this for every tile of the level and its backdrop at the scaled position and scales the positions of props, entities and starts along. An additional matrix given to the upscaling of a level acts as transforming the level by that matrix and then upscaling.",
     ["inputs"], "21 shapes x all factors x all edge data",
     "Tests check positions and shapes for few factors and no filth data, and never a level or backdrop.",
     [T, L], [("Tile.upscale", T), ("Level.upscale", L)], (), ["Tile.upscale", "Level.upscale"])
prop("C23", "Edge visibility follows the documented rules for every neighbourhood",
     "After computing edge visibility, an edge that does not exist for the tile's shape carries no data at all, an existing edge is solid exactly when it is not flush with the tile border or the touching neighbour edge on the same layer is missing or not flush, and solid edges are visible. A non-solid edge between tiles of equal sprite is invisible; between different sprites its visibility is what the callback answers for that position, side, tile and neighbour, or by default true exactly for bottom and right edges. Other edge data and other layers are untouched.",
     ["inputs"], "all pairs of shapes, sides, sprites, layers and callbacks",
     "No test computes visibility.",
     [L, T], [("calculate_edge_visibility", L), ("SHAPE_VERTEXES", T)], (), ["tile.edge_data"])
prop("C24", "Edge caps and angles follow the documented joining rules",
     "After computing caps, an invisible edge has no caps, angles or filth; at each end of a visible edge that lies on a tile corner, the cap is set and the angle zero exactly when no visible same-sprite neighbour edge of the same side continues from that corner, and otherwise the cap is clear and the angle is half the turn towards the continuing edge (clockwise positive), preferring the one turning furthest away from the tile; ends between corners have neither cap nor angle. Filth caps and angles follow the same join when both edges carry the same filth, are a cap with zero angle when the filth differs or there is no join, and are cleared on edges without filth.",
     ["inputs"], "all local tile neighbourhoods",
     "No test computes caps.",
     [L, T], [("calculate_edge_caps", L)], (), ["tile.edge_data"])
prop("C25", "Variables and bound properties never hold ill-typed values",
     "Creating a variable with a value of the wrong type or an integer outside its 32-bit range fails, including values nested in structs and arrays and values assigned or inserted through the array interface, and re-validation reports values corrupted later. Every entity and level property reads its variable's value or its documented default, rejects a variable of another type with ValueError, stores assigned values under its own variable name and type, forgets the variable when deleted, and has a default that can be assigned back.",
     ["inputs"], "all variable types and all declared properties",
     "Tests only build valid variables and touch no property.",
     [V, E_, L], [("Variable._assert_types overrides", V), ("bind_prop / bind_prop_arr", E_)], (), ["Variable constructors", "entity/level attributes"])
prop("C26", "Equality and hashing of tiles and variables are coherent",
     "Two tiles are equal exactly when shape, flags, all edge data and sprite agree, and two variables exactly when type and value agree; comparison with any other object is simply unequal. Every tile and every variable can be hashed, equal ones hash equally, and a copy is equal to its original.",
     ["inputs"], "all tiles and variables",
     "No test hashes a tile or variable; only equality of variables is used.",
     [T, V], [("Tile.__eq__/__hash__", T), ("Variable.__eq__/__hash__", V)], (), ["==, hash()"])
prop("C27", "JSON export and import of variables are inverse",
     "Exporting any variable tree whose arrays have uniformly typed members to (schema, JSON data), through JSON text, and importing it again yields an equal variable with the same types, for every variable type, byte value in strings, empty and nested array. Trees that cannot be represented are refused with an exception rather than exported wrongly.",
     ["inputs"], "all variable trees",
     "No test touches the command line tools.",
     ["dustmaker/cmd/variables.py"], [("variables_to_json / json_to_variables / merge_schema", "dustmaker/cmd/variables.py")], (), ["variables_to_json", "json_to_variables"])
prop("C28", "Command line edits apply fully or leave the file as it was",
     "The variables and thumbnail tools change only what was asked for (variables; screenshot and its taken-marker), keep the region data of the level byte for byte, also for levels without any region, and preserve other file kinds' headers. If the new data is invalid, of an unknown kind or cannot be encoded, they fail with an error exit or exception and the file on disk is unchanged; extracting a thumbnail never overwrites an existing image unless forced.",
     ["inputs", "fault_sequences"], "all input files and edits, valid or not",
     "No test runs the command line tools.",
     ["dustmaker/cmd/variables.py", "dustmaker/cmd/thumbnail.py"], [("Variables.update_variables", "dustmaker/cmd/variables.py"), ("Thumbnail.main", "dustmaker/cmd/thumbnail.py")], (), ["files on disk"])
prop("C29", "The transform tool scales, rotates, flips and then shifts",
     "The level written by the transform command is the input level upscaled, then rotated clockwise the requested number of quarter turns, then flipped vertically and/or horizontally, then shifted by exactly the requested pixels (not affected by the scale factor), and the input file is left alone. Normal levels become dustmod levels exactly when they are upscaled; other level types are kept.",
     ["inputs", "configurations"], "all option combinations",
     "No test runs the command line tools.",
     ["dustmaker/cmd/transform.py", X, L], [("Transform.main", "dustmaker/cmd/transform.py")], (), ["output level"])
prop("C30", "Save conversion keeps every known score and book entry",
     "Converting a vanilla save keeps every listed book entry unchanged, carries the score of every known level over with all its fields and the key type of that level, drops scores of unknown levels and other entries, orders scores by level name, and sets each key counter to the number of scored levels behind that kind of door (red keys copied). The result is written with the same file header and reads back equal.",
     ["inputs"], "all save files",
     "No test runs the command line tools.",
     ["dustmaker/cmd/save_convert.py"], [("migrate_stats", "dustmaker/cmd/save_convert.py")], (), ["migrate_stats", "stats1 file"])

prop("C31", "Written files keep the one fixed Dustforce layout",
     "Level files, variable files and replays are written in exactly the game's binary layout, so other programs keep understanding them: every field of the file frame, metadata, variables (type tags 1 bool, 2 signed, 3 unsigned, 4 float, 5 string, 10 vector, 14 struct, 15 array; 6-bit names), regions of 256 tiles and segments of 16 tiles (also on the negative side; a backdrop tile counts as one segment), tiles in ascending layers and row by row, dust, props, entities with their extended names, input streams as run lengths and desync frames sits at its fixed bit position with its fixed width, byte order, sign convention and flag polarity. A reader given a file built from that layout alone returns the described contents. A change made in reader and writer alike that keeps the round trip but alters the files breaks this.",
     ["inputs"], "all contents of levels, variable files and replays",
     "The tests only read what the same code wrote or count objects of one sample level; a change made on both sides passes.",
     [R, W, T, V, RP], [("DFWriter.write_level_ex / _write_region / _write_segment", W), ("Tile._pack_tile_data / _pack_dust_data", T), ("DFWriter.write_variable / write_replay", W), ("VariableType", V), ("_INTENT_META", RP)], (), ["bytes of the written file"])
prop("C32", "Older supported layouts are read by their own rules, others refused",
     "Files written by older versions of the game are read by the rules of their version: level files of version 43, which have no screenshot section, segments of every version with the sections that version has (header totals from versions 5 and 6 on; prop sizes only from segment version 7 on or in dustmod levels; extended entity names only from segment version 8 on, and only for entities stored under the generic name), replays of versions 1, 3 and 4 with or without user name (version 1 holds one player and fewer inputs). Size fields lead past data the reader does not know. A file whose marks differ from DF_LVL, DF_MTD, the expected variable file mark or DF_RPL in any byte, a level of version 42 or below and a replay of an unsupported version are refused with LevelParseException.",
     ["inputs", "configurations"], "all version numbers, section combinations and contents",
     "The tests read one current level and two replays; no old segment, unknown trailing data or foreign mark is read.",
     [R], [("DFReader.read_level_ex / read_metadata / read_region / read_segment", R), ("DFReader.read_replay / read_var_file", R)], (), ["read_level", "read_level_ex", "read_var_file", "read_replay"])
prop("C33", "Convenience accessors report exactly the stored data",
     "Sprite tuple and sprite path name exactly the stored sprite set, index and palette; has_filth is true exactly when some edge has a filth sprite set; is_dustblock is true exactly for the dustblock sprite of the tile's set and set_dustblock makes it so (or refuses a set without one), touching nothing else; an input asked for outside its recorded frames or for a stream that was not recorded is neutral and inside it is the recorded value; player n's and its camera's desync data are those of ids 2n and 2n+1; the fog index of a layer or sublayer is its documented position, outside the documented range it is refused; fog normalisation gives the tables exactly their documented lengths and keeps the values they had.",
     ["inputs"], "all sprites, shapes, streams, frames, players, layers and table lengths",
     "No test uses these accessors except on one level.",
     [T, RP, E_], [("Tile.get_sprite_tuple / sprite_path / has_filth / is_dustblock / set_dustblock", T), ("PlayerData.get_intent_value, Replay.get_player_entity_data", RP), ("FogTrigger.get_layer_index / normalize", E_)], (), ["accessor results"])
prop("C34", "Separately made objects share no mutable state",
     "Levels, backdrops, tiles, edges, entities, variables, replays and replay parts that were constructed separately, read from a file (the same file twice, or as equal parts of one file), deep-copied or produced by upscaling are independent: editing one in place through its public attributes changes none of the others, nothing constructed or read later, and none of the library's lookup tables. Default array properties belong to the entity they were read from. An entity keeps its own deep copy of the variables it was given, structs and arrays their own container.",
     ["histories", "inputs"], "every pair of objects and every in-place edit, before and after",
     "A test would have to edit one object and then inspect unrelated ones; none does.",
     [L, T, E_, V, RP, R], [("constructors", L), ("Tile.__init__ / upscale", T), ("Entity.__init__, bind_prop_arr", E_), ("dataclass default factories", RP), ("object construction while reading", R)], (), ["public attributes of all other objects"])
prop("C35", "Saving is reproducible and saving again changes nothing",
     "Writing the same level, variable file or replay twice gives the same bytes, and loading a written file and writing it again gives the same bytes, so nothing drifts or grows over repeated saves: numbers the format cannot hold, prop sizes between two steps, unused trailing inputs and continued strings settle at the first save (props at whole pixel positions; spike flags only on edges with filth). The order in which tiles were entered, and in which contents of different segments were, has no influence on the file; props, entities and struct members of one place keep their order.",
     ["histories", "inputs"], "all contents, every number of save/load cycles, every order of entering",
     "Tests compare object counts or variables after one cycle and never the bytes of two saves.",
     [R, W], [("DFWriter.write_level / write_var_file / write_replay", W), ("DFReader.read_level / read_var_file / read_replay", R)], (), ["bytes of the written files"])
prop("C36", "The public geometry tables describe the documented shapes",
     "For every shape SHAPE_VERTEXES lists the corners of a convex clockwise outline inside the tile square with the area of its kind, halves and slants 1 to 4 being quarter turns of each other, slants 5 to 8 their mirror images and small slants continuing big ones; SHAPE_ORDERED_SIDES lists exactly the sides that exist on the shape in the documented order (full tiles clockwise from the top, otherwise the diagonal first); SIDE_CLOCKWISE_INDEX gives each side's clockwise position; SPRITE_SET_DUSTBLOCK_TILE has each sprite set's dustblock index.",
     ["inputs"], "all 21 shapes, all sides",
     "No test looks at the tables beyond their use for a few shapes.",
     [T], [("SHAPE_VERTEXES", T), ("SHAPE_ORDERED_SIDES", T), ("SIDE_CLOCKWISE_INDEX", T)], (), ["module tables"])

prop("C37", "Tools act alike alone and through the shared command line, or fail cleanly",
     "Running transform, variables, thumbnail or saveconvert through the shared command line and through the tool's own entry point gives the same exit status, output and files; only the requested file changes. Unknown tools, missing, surplus or ill-typed arguments and absent or foreign input files and transforming or editing truncated ones give a nonzero exit status and change or create no file; without a tool name the help is printed with status 0 and no file is opened. Converting a thumbnail stores the image in PNG form (scaled to 382 x 182 with --auto-scale) and otherwise acts like --update; variables of a level are shown from its metadata even if its region data is damaged.",
     ["inputs"], "every tool and option, valid and invalid argument lists, damaged files",
     "No test starts a tool; failure paths depend on the argument list and file content.",
     ["dustmaker/cmd/main.py", "dustmaker/cmd/common.py", "dustmaker/cmd/thumbnail.py", "dustmaker/cmd/transform.py", "dustmaker/cmd/variables.py", "dustmaker/cmd/save_convert.py"],
     [("main", "dustmaker/cmd/main.py"), ("run_utility", "dustmaker/cmd/common.py"), ("Thumbnail.main", "dustmaker/cmd/thumbnail.py")], (), ["command line"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
