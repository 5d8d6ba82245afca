"""Source of properties.jsonl and MANIFEST.json (python3-vt meta/gen.py)."""
Q_IN = "inputs"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe=None, bounds="", state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      observe=observe or [], state=state or []))


RT_WHY = ("The tests write a few fixed designs and compare counts or single designs; they cannot range over every "
          "displacement, sign, carry and command order at which a record format can lose or move a penetration.")

P("C01", "DST write/read round trip keeps every penetration, colour block and trim",
  "Writing any pattern as Tajima DST and reading the file back gives the same needle penetrations at the same (rounded) "
  "positions in the same order, split into colour blocks at the same places (colour changes and stops both come back as "
  "colour changes), however far apart they are. A trim requested between two penetrations comes back as a trim between "
  "the same two, none appears between penetrations that need fewer than three jump records, and sequin ejects survive "
  "between their mode switches.",
  ["inputs"], "every command sequence and coordinates within the stated bounds, settings trim_at and sequin contingency",
  RT_WHY, ["pyembroidery/DstWriter.py", "pyembroidery/DstReader.py", "pyembroidery/EmbEncoder.py", "pyembroidery/EmbPattern.py"],
  [("balanced ternary record", "DstWriter.encode_record"), ("bit-weighted decode", "DstReader.decode_dx/decode_dy"),
   ("trim as cancelling jumps", "DstWriter.write, EmbPattern.interpolate_trims")], ["read_dst(write_dst(pattern))"])
P("C02", "EXP write/read round trip keeps penetrations, colour changes, trims and jumps",
  "Writing any pattern as Melco EXP and reading it back gives the same needle penetrations at the same (rounded) "
  "positions in the same order, with colour changes (and stops, which EXP stores as colour changes) and trims between "
  "the same penetrations.",
  ["inputs"], "every command sequence and coordinates within the stated bounds", RT_WHY,
  ["pyembroidery/ExpWriter.py", "pyembroidery/ExpReader.py", "pyembroidery/EmbEncoder.py", "pyembroidery/ReadHelper.py"],
  [("signed byte pairs with 0x80 escape", "ExpWriter.write / ExpReader.read_exp_stitches")], ["read_exp(write_exp(pattern))"])
P("C03", "JEF write/read round trip keeps penetrations, colour blocks, stops and threads",
  "Writing any pattern as Janome JEF and reading it back gives the same needle penetrations at the same (rounded) "
  "positions in the same order, split into the same colour blocks with a stop where the design stops (a second stop "
  "within one block comes back as a change to the same colour), and each block reads back the Janome palette colour the "
  "writer selected for it.",
  ["inputs"], "every command sequence and coordinates within the stated bounds; thread colours from a stated set", RT_WHY,
  ["pyembroidery/JefWriter.py", "pyembroidery/JefReader.py", "pyembroidery/EmbEncoder.py", "pyembroidery/EmbThread.py", "pyembroidery/EmbThreadJef.py"],
  [("0x80 escape records", "JefWriter.write / JefReader.read_jef_stitches"), ("colour table with 0 for stop", "JefWriter palette patch")],
  ["read_jef(write_jef(pattern))"])
P("C04", "PEC write/read round trip keeps penetrations, colour blocks, stops and trims",
  "Writing any pattern as Brother PEC and reading it back gives the same needle penetrations at the same (rounded) "
  "relative positions in the same order for every displacement the short and long record forms must carry, with colour "
  "changes, stops and trims between the same penetrations.",
  ["inputs"], "every command sequence and coordinates within the stated bounds", RT_WHY,
  ["pyembroidery/PecWriter.py", "pyembroidery/PecReader.py", "pyembroidery/EmbEncoder.py", "pyembroidery/EmbPattern.py"],
  [("7-bit short / 12-bit long values", "PecWriter.write_value / PecReader.signed7, signed12"), ("stop as repeated colour", "EmbPattern.interpolate_duplicate_color_as_stop")],
  ["read_pec(write_pec(pattern))"])
P("C05", "PES write/read round trip is faithful in every supported version",
  "Writing any pattern as Brother PES version 1 or 6, full or truncated, and reading it back gives the same needle "
  "penetrations at the same (rounded) positions in the same order and colour blocks; version 6 also keeps each block's "
  "thread colour, description, catalogue number, brand and chart and the design's name and author fields, and the "
  "version-1 and -6 embroidery sections describe the same stitches as the embedded PEC block, measured from the design's left "
  "and lower edges; the version, pes version and truncated settings choose the form written.",
  ["inputs", "configurations"], "every command sequence and coordinates within the stated bounds, both versions, truncated or not; symbolic thread colours", RT_WHY,
  ["pyembroidery/PesWriter.py", "pyembroidery/PesReader.py", "pyembroidery/PecWriter.py", "pyembroidery/PecReader.py"],
  [("embedded PEC block and offset", "PesWriter.write_version_1/6, write_truncated_*"), ("CSewSeg segments", "PesWriter.write_pes_embsewseg_segments"), ("thread records", "PesWriter.write_pes_thread / PesReader.read_pes_thread")],
  ["read_pes(write_pes(pattern))"])
P("C06", "VP3 write/read round trip keeps penetrations, blocks, trims and thread data",
  "Writing any pattern as Pfaff VP3 and reading it back gives the same needle penetrations at the same absolute positions "
  "in the same order and colour blocks, with trims between the same penetrations (VP3 stores neither stops nor jumps), "
  "for short and long stitch records and any block starting position, and each block keeps its thread's colour, "
  "description, catalogue number and brand.",
  ["inputs"], "every command sequence and coordinates within the stated bounds; symbolic thread colours", RT_WHY,
  ["pyembroidery/Vp3Writer.py", "pyembroidery/Vp3Reader.py", "pyembroidery/EmbEncoder.py"],
  [("block offsets relative to design centre", "Vp3Writer.write_vp3_colorblock / Vp3Reader.vp3_read_colorblock"), ("0x80 escape with 16-bit form", "Vp3Writer.write_stitches_block")],
  ["read_vp3(write_vp3(pattern))"])
P("C07", "XXX write/read round trip keeps penetrations, colour changes, trims and colours",
  "Writing any pattern as Singer XXX and reading it back gives the same needle penetrations at the same (rounded) "
  "positions in the same order and colour blocks, with trims between the same penetrations, and every block's thread keeps its colour.",
  ["inputs"], "every command sequence and coordinates within the stated bounds; symbolic thread colours", RT_WHY,
  ["pyembroidery/XxxWriter.py", "pyembroidery/XxxReader.py", "pyembroidery/EmbEncoder.py"],
  [("short and long records", "XxxWriter.write / XxxReader.read")], ["read_xxx(write_xxx(pattern))"])
P("C08", "U01 write/read round trip keeps penetrations, needle changes, trims and speeds",
  "Writing any pattern as Barudan U01 and reading it back gives the same needle penetrations at the same (rounded) "
  "positions in the same order, with needle changes (and the needle chosen for each: needles 1 to 14 exactly, higher "
  "thread indices folded onto the needles the machine has), stops, trims and fast/slow switches at the same places.",
  ["inputs", "configurations"], "every command sequence and coordinates within the stated bounds; needle counts 2..15 and 1 (stops)", RT_WHY,
  ["pyembroidery/U01Writer.py", "pyembroidery/U01Reader.py", "pyembroidery/EmbEncoder.py"],
  [("sign and magnitude records", "U01Writer.write / U01Reader.read_u01_stitches"), ("needle codes", "U01Writer NEEDLE_SET branch")], ["read_u01(write_u01(pattern))"])
P("C09", "TBF write/read round trip keeps penetrations, needle changes, trims and threads",
  "Writing any pattern as Tajima TBF and reading it back gives the same needle penetrations at the same (rounded) "
  "positions in the same order with needle changes, stops and trims between the same penetrations, and the colour table "
  "read back is the thread list in order.",
  ["inputs", "configurations"], "every command sequence and coordinates within the stated bounds; symbolic thread colours", RT_WHY,
  ["pyembroidery/TbfWriter.py", "pyembroidery/TbfReader.py", "pyembroidery/EmbEncoder.py"],
  [("three-byte records", "TbfWriter.write / TbfReader.read"), ("needle table", "TbfWriter.write header")], ["read_tbf(write_tbf(pattern))"])
P("C10", "Encoding never exceeds the length limits and never moves a penetration",
  "Encoding any pattern for a format's limits yields a path in which no stitch step is longer than the maximum stitch and "
  "no jump step longer than the maximum jump in either axis, and with the default long-stitch handling the needle "
  "penetrations are exactly the source's, in order, at their (transformed, rounded) positions; with sew-to handling only "
  "penetrations on the straight line between consecutive points are added.",
  ["inputs", "configurations"], "every command sequence, coordinates and limits within the stated bounds, all three long-stitch contingencies, full-jump on and off",
  "Tests encode two or three fixed patterns at fixed limits; the limit must hold at every distance, including exact multiples of the limit.",
  ["pyembroidery/EmbEncoder.py", "pyembroidery/EmbPattern.py"],
  [("gap interpolation", "EmbEncoder.Transcoder.interpolate_gap_stitches"), ("contingencies", "Transcoder.stitch_with_contingency / sew_to / needle_to / jump_to_within_stitchrange")],
  ["EmbPattern.get_normalized_pattern"])
P("C11", "Encoder output is a well-formed low-level command stream",
  "Whatever mix of low-, middle- and high-level commands a pattern holds, its encoded form contains only core machine "
  "commands, ends with exactly one end command with nothing after it, ejects sequins only while sequin mode is on, never "
  "trims or jumps in sequin mode, and trims only after penetrations not yet trimmed.",
  ["inputs", "histories"], "every command sequence within the stated bounds over the whole command vocabulary, settings included",
  "The state machine (trimmed, jumping, sequin mode, thread position) is only exercised by tests along a few command orders.",
  ["pyembroidery/EmbEncoder.py", "pyembroidery/EmbConstant.py"],
  [("state machine", "EmbEncoder.Transcoder.transcode_main"), ("sequin toggles", "Transcoder.toggle_sequins"), ("end", "Transcoder.end_here")],
  ["EmbPattern.get_normalized_pattern"])
P("C12", "Encoding gives each colour block its own thread and one change between blocks",
  "For every pattern, encoding keeps the partition of penetrations into colour blocks, emits exactly one thread change "
  "between consecutive blocks (colour change, needle set or stop as configured; needle and stop modes also announce the "
  "first block) and lists the threads of the blocks in order (needle mode keeps the whole thread list): blocks the "
  "design's thread-change commands or change-sequence entries name get the named thread, the others the source's threads "
  "in order; colour breaks before the first or after the last penetration add no change.",
  ["inputs", "configurations"], "every command sequence within the stated bounds; explicit thread/needle indices symbolic; all three thread-change commands",
  "Tests look at a handful of designs with implicit threads; explicit indices, set-change-sequence entries and needle wrap-around are order-dependent.",
  ["pyembroidery/EmbEncoder.py", "pyembroidery/EmbFunctions.py", "pyembroidery/EmbPattern.py"],
  [("change plan", "EmbEncoder.Transcoder.build_thread_change_sequence"), ("change emission", "Transcoder.next_change_sequence, color_break")],
  ["EmbPattern.get_normalized_pattern"])
P("C13", "Transformation matrices compose, invert and map points exactly",
  "In exact arithmetic, applying a product of transformations to a point equals applying them one after another, later "
  "post_ operations act after earlier ones, translation, scaling and rotation about a centre keep that centre fixed and "
  "act as defined, an inverse undoes its transformation on every point, and transforming a pattern maps every stitch "
  "position by the matrix while leaving every command unchanged.",
  ["inputs"], "all real matrix entries, points, centres and angles (unit-circle parametrisation)",
  "Tests check isolated numeric cases; the laws are universally quantified over reals and over composition order.",
  ["pyembroidery/EmbMatrix.py", "pyembroidery/EmbPattern.py"],
  [("row-vector 3x3 product", "EmbMatrix.matrix_multiply"), ("inverse", "EmbMatrix.inverse"), ("pattern transform", "EmbPattern.transform")],
  ["EmbMatrix.point_in_matrix_space", "EmbPattern.transform"])
P("C14", "Settings and inline matrix commands transform exactly the stitches after them",
  "Translate, scale and rotate settings (rotation first, then scale, then translation), and matrix commands placed in the "
  "design (a later one acts before those already in force, so that they nest), move every later position by exactly the "
  "accumulated transformation (needle-centred ones keep the current needle position fixed, reset goes back to the "
  "settings' or identity transformation) and never change positions before them, the command sequence or the colour "
  "blocks.",
  ["inputs", "histories"], "sequences of matrix commands and stitches within the stated bounds with symbolic coordinates, scales and translations; rotations by quarter turns and symbolic unit-circle angles",
  "Tests use one command at a time; ordering and needle-centred variants are combinational.",
  ["pyembroidery/EmbEncoder.py", "pyembroidery/EmbMatrix.py"],
  [("inline matrix handling", "EmbEncoder.Transcoder.transcode_main MATRIX_* branches"), ("settings", "Transcoder.__init__")], ["EmbPattern.get_normalized_pattern"])
P("C15", "Thread-change commands pack and unpack thread, needle and order exactly",
  "Packing a command with any combination of thread, needle and order indices in the supported range and unpacking it "
  "returns the same command and the same indices (absent ones absent), never alters the low command byte and never "
  "produces the same code for two different combinations.",
  ["inputs"], "every command code 0..255 and every index 0..254 or absent",
  "The whole 2^32 code space is a solver question; tests check a few values.",
  ["pyembroidery/EmbFunctions.py", "pyembroidery/EmbConstant.py"],
  [("byte-wise packing", "EmbFunctions.encode_thread_change / decode_embroidery_command")], ["encode_thread_change", "decode_embroidery_command"])
P("C16", "Binary integer and string helpers are exact inverses",
  "Every fixed-width integer written by the write helpers is read back by the matching reader as the same value modulo "
  "its width, in the declared byte order and length, signed readers return the two's-complement value, and short or "
  "missing data is reported as absent rather than misread.",
  ["inputs"], "every value of 8, 16, 24 and 32 bits; every data length from 0 to one more than needed",
  "Exhausting 32-bit values is not testing's reach; the helpers underlie every format.",
  ["pyembroidery/ReadHelper.py", "pyembroidery/WriteHelper.py"],
  [("byte assembly", "ReadHelper.read_int_*"), ("byte splitting", "WriteHelper.write_int_*")], ["ReadHelper", "WriteHelper"])
P("C17", "CSV is a lossless exchange format",
  "Writing any pattern as CSV (plain or delta) and reading it back reproduces every stitch record with its coordinates, "
  "command and thread/needle/order indices, every thread with the attributes CSV stores (colour, description, brand, "
  "catalogue number, details, weight; an empty one comes back absent), and the metadata, whatever command codes of the "
  "vocabulary and text values (free of carriage returns) it holds. "
  "Rows that leave columns out (commands without a position, threads with a colour only) and threads written as three "
  "colour numbers are read accordingly.",
  ["inputs"], "every command of the vocabulary with symbolic coordinates and indices; symbolic thread colours; short symbolic text",
  "Tests write a few designs; quoting, numeric formatting and the command-name tables matter per value.",
  ["pyembroidery/CsvWriter.py", "pyembroidery/CsvReader.py", "pyembroidery/EmbFunctions.py"],
  [("row formats", "CsvWriter.write / CsvReader.read"), ("name tables", "EmbFunctions.get_command_dictionary / get_common_name_dictionary")],
  ["read_csv(write_csv(pattern))"])
P("C18", "JSON is a lossless exchange format",
  "Writing any pattern as JSON and reading it back reproduces every stitch record with its coordinates, command and "
  "indices, every thread with its attributes, and text and number metadata.",
  ["inputs"], "every command of the vocabulary with symbolic coordinates and indices; symbolic thread colours",
  "Per-value claims over the full command vocabulary and index packing.",
  ["pyembroidery/JsonWriter.py", "pyembroidery/JsonReader.py", "pyembroidery/EmbFunctions.py"],
  [("document layout", "JsonWriter.write / JsonReader.read")], ["read_json(write_json(pattern))"])
P("C19", "Building and moving a pattern keeps coordinates consistent",
  "Relative additions land at the position of the last addition plus the displacement, absolute ones where given, "
  "inserted commands take the position of the stitch before them and leave the other records alone, bounds are the exact "
  "extremes of all stitch positions, and translating or centring shifts every record by the same vector without changing "
  "commands; indexing reads and sets the records and metadata.",
  ["inputs", "histories"], "sequences of builder calls within the stated bounds with symbolic coordinates",
  "Histories of calls with arbitrary coordinates; tests build fixed patterns.",
  ["pyembroidery/EmbPattern.py"],
  [("running position", "EmbPattern.add_stitch_relative / add_stitch_absolute / insert_stitch_relative"), ("bounds", "EmbPattern.bounds"), ("centre", "EmbPattern.move_center_to_origin, translate")],
  ["EmbPattern.stitches", "EmbPattern.bounds"])
P("C20", "Combining and copying patterns keeps all content and leaves the operands alone",
  "Adding one pattern to another yields the first design's sewing followed by the second's with a colour break between "
  "them (none where both join in the same colour), both thread lists in order and metadata merged, and copying or adding "
  "never changes, or later shares changes to stitches, thread list or metadata with, an operand that is not the target (a "
  "deep copy shares no thread either).",
  ["inputs", "histories"], "operand patterns with symbolic coordinates and commands within the stated bounds, mutation after the copy",
  "Aliasing and order effects show only for particular follow-up mutations.",
  ["pyembroidery/EmbPattern.py"],
  [("append with offset and break", "EmbPattern.add_pattern, __iadd__, __add__"), ("copy", "EmbPattern.copy, __copy__, __init__")],
  ["EmbPattern + EmbPattern", "EmbPattern.copy"])
P("C21", "Pattern clean-up passes change only what they promise",
  "Turning jump runs into trims, merging jumps, and converting between repeated colours, stops and frame ejects keep "
  "every needle penetration at its position and in its order and colour block; a trim is added exactly to the jump runs "
  "that reach the requested count or distance, and converting stops to repeated colours and back restores the stops where "
  "sewing separates the changes.",
  ["inputs", "histories"], "every command sequence within the stated bounds, symbolic coordinates and thresholds",
  "These passes rewrite the command list by index with deletions and insertions; failures depend on run lengths and positions.",
  ["pyembroidery/EmbPattern.py"],
  [("trim interpolation", "EmbPattern.interpolate_trims / get_pattern_interpolate_trim"), ("jump merge", "EmbPattern.get_pattern_merge_jumps"), ("stop conversions", "EmbPattern.interpolate_*_as_*")],
  ["EmbPattern.stitches after the pass"])
P("C22", "Block iterators partition the pattern",
  "Iterating a pattern by stitch block, colour block, command block or as stitches visits every qualifying record "
  "exactly once in order, no block is empty or crosses a boundary command, and each block is paired with the thread in "
  "force at that point.",
  ["inputs", "histories"], "every command sequence within the stated bounds",
  "Partition laws over all command orders; tests iterate a few.",
  ["pyembroidery/EmbPattern.py"],
  [("generators", "EmbPattern.get_as_stitchblock / get_as_colorblocks / get_as_command_blocks / get_as_stitches")], ["the iterators"])
P("C23", "Palette selection picks the nearest available colour",
  "The palette entry chosen for a thread is one of the available entries and none of the available entries is closer in "
  "the library's colour distance (ties to a fixed side), and building palettes gives equal colours the same entry, gives "
  "the thread served first its nearest entry, and otherwise keeps entries distinct while any remain.",
  ["inputs"], "every 24-bit colour against symbolic small palettes and the built-in ones",
  "2^24 colours per thread and palettes of 64+ entries; tests check a few.",
  ["pyembroidery/EmbThread.py"],
  [("distance and search", "EmbThread.color_distance_red_mean / find_nearest_color_index"), ("palettes", "build_unique_palette / build_nonrepeat_palette / build_palette")],
  ["palette indices"])
P("C24", "Every record of the read-only stitch formats decodes to its defined displacement",
  "Each stitch, jump, trim, colour-change, stop and end record of the formats the library can only read moves the needle "
  "by exactly the displacement its bytes encode with the right sign and axis, yields the command its control bits encode, "
  "and running out of data ends the design after the records already decoded, with exactly one end command.",
  ["inputs"], "every value of every byte of one to three records per format, and every truncation of them",
  "Record byte space is 2^16..2^24 per record; tests have no files for most of these formats.",
  ["pyembroidery/DsbReader.py", "pyembroidery/DszReader.py", "pyembroidery/EmdReader.py", "pyembroidery/ExyReader.py", "pyembroidery/FxyReader.py",
   "pyembroidery/GtReader.py", "pyembroidery/InbReader.py", "pyembroidery/JpxReader.py", "pyembroidery/KsmReader.py", "pyembroidery/MaxReader.py", "pyembroidery/MitReader.py",
   "pyembroidery/NewReader.py", "pyembroidery/PcdReader.py", "pyembroidery/PcmReader.py", "pyembroidery/PcqReader.py", "pyembroidery/PcsReader.py",
   "pyembroidery/SewReader.py", "pyembroidery/StcReader.py", "pyembroidery/StxReader.py", "pyembroidery/TapReader.py", "pyembroidery/ZhsReader.py", "pyembroidery/ZxyReader.py",
   "pyembroidery/A100Reader.py", "pyembroidery/A10oReader.py", "pyembroidery/BroReader.py", "pyembroidery/DatReader.py"],
  [("record loops", "*Reader.read_*_stitches")], ["EmbPattern.stitches"])
P("C25", "Header counts, offsets and extents describe the stitch data that follows",
  "In every written file the header's stitch, command and colour counts, section lengths, offsets and design extents "
  "equal, in that format's own convention, those of the data actually written after it (a DST trim counts as one command "
  "of three records; DST and TBF extents are magnitudes from the origin), so that a machine or reader relying on the "
  "header sees the whole design.",
  ["inputs"], "every command sequence and coordinates within the stated bounds, per format",
  "Readers in the library mostly ignore these fields, so round-trip tests cannot notice a wrong one.",
  ["pyembroidery/DstWriter.py", "pyembroidery/JefWriter.py", "pyembroidery/PecWriter.py", "pyembroidery/PesWriter.py", "pyembroidery/Vp3Writer.py",
   "pyembroidery/XxxWriter.py", "pyembroidery/U01Writer.py", "pyembroidery/TbfWriter.py", "pyembroidery/PmvWriter.py", "pyembroidery/CsvWriter.py",
   "pyembroidery/GcodeWriter.py", "pyembroidery/InfWriter.py", "pyembroidery/ColWriter.py"],
  [("header fields", "*Writer.write"), ("back-patched lengths", "PecWriter/PesWriter/Vp3Writer placeholders")], ["bytes written"])
P("C26", "Fractional coordinates are rounded without drift",
  "Writing a pattern with fractional coordinates puts every penetration in the file within half a unit of its true "
  "position, no matter how many stitches precede it, and returning to a point returns to the same file position (up to "
  "the rounding of exact half-way coordinates).",
  ["inputs"], "sequences of stitches with symbolic half/quarter-unit coordinates within the stated bounds, per format",
  "Accumulated rounding error needs specific fractional sequences.",
  ["pyembroidery/DstWriter.py", "pyembroidery/ExpWriter.py", "pyembroidery/JefWriter.py", "pyembroidery/PecWriter.py", "pyembroidery/XxxWriter.py",
   "pyembroidery/U01Writer.py", "pyembroidery/TbfWriter.py", "pyembroidery/Vp3Writer.py", "pyembroidery/EmbEncoder.py"],
  [("residual tracking", "*Writer.write: dx = round(x - xx); xx += dx")], ["read(write(pattern))"])
P("C27", "The machine preview bitmap stays inside its frame",
  "Whatever the design's extents, the preview graphics in a PEC block are exactly their declared size (48 x 38), every "
  "pixel drawn lies inside the frame's blank outline, scaling is uniform and keeps the design centred, and the frame "
  "itself is preserved for each colour image.",
  ["inputs"], "symbolic stitch positions and extents within the stated bounds",
  "Out-of-frame pixels occur only for particular extents and rounding.",
  ["pyembroidery/PecGraphics.py", "pyembroidery/PecWriter.py"],
  [("scaled drawing", "PecGraphics.draw_scaled / draw"), ("bit set", "PecGraphics.graphic_mark_bit")], ["graphics bytes"])
P("C28", "Writing or normalising leaves the source pattern untouched",
  "Encoding a pattern or writing it in any format (with encoding on) changes nothing in the pattern the caller holds "
  "(stitches, threads, metadata) nor in the settings mapping passed in, so writing twice gives the same bytes (for "
  "designs with a thread for each block, and apart from the date JEF stores).",
  ["inputs", "configurations"], "every command sequence within the stated bounds, per writer",
  "Aliasing between source and encoded pattern shows only in follow-up use.",
  ["pyembroidery/EmbPattern.py", "pyembroidery/EmbEncoder.py", "pyembroidery/*Writer.py"],
  [("normalise into a new pattern", "EmbPattern.write_embroidery, get_normalized_pattern"), ("palette patches", "JefWriter, PesWriter, PecWriter")], ["source pattern after write_*"])
P("C29", "Thread colours keep their value through every representation",
  "A thread's red, green and blue components, its integer colour, its hex string and the colour parsed back from any of "
  "these agree for every 24-bit colour, equality of threads is equality of their attributes, and colour distance is zero "
  "exactly for equal colours and symmetric.",
  ["inputs"], "every 24-bit colour; all component values",
  "2^24 colours, 2^48 pairs.",
  ["pyembroidery/EmbThread.py"],
  [("component access", "EmbThread.get_red/green/blue, set_hex_color, hex_color"), ("parsing", "parse_string_rgb"), ("distance", "EmbThread.color_distance_red_mean")], ["EmbThread"])
P("C30", "Tie-on and tie-off lock stitches secure the thread and change nothing else",
  "With ties enabled, the first penetration after the start and after each trim, stop or colour change is preceded at its "
  "point by a lock of short stitches toward the next penetration, and the last before each trim, colour change or "
  "sequence break followed by one toward the penetration before it, where those are neighbouring commands; explicit tie "
  "commands do the same; every lock ends where it began and stays within the stitch limit, and removing the locks leaves "
  "exactly the encoding without ties.",
  ["inputs", "configurations"], "every command sequence within the stated bounds",
  "Depends on neighbouring commands and distances.",
  ["pyembroidery/EmbEncoder.py"],
  [("lock", "EmbEncoder.Transcoder.lock_stitch, tie_on, tie_off")], ["EmbPattern.get_normalized_pattern"])
P("C31", "A truncated stitch file still yields every complete record before the cut",
  "Cutting a DST, EXP, JEF, PEC, PES, XXX, U01, TBF, VP3 or PMV file, or one of the record-based formats that are only read, at any byte of its stitch section and reading it yields a "
  "design whose records are exactly those complete before the cut, ended properly, without an error.",
  ["inputs", "crash_points"], "every cut position of symbolic designs within the stated bounds, per format with record-terminated data",
  "Cut position times content; tests read whole files only.",
  ["pyembroidery/DstReader.py", "pyembroidery/ExpReader.py", "pyembroidery/JefReader.py", "pyembroidery/PecReader.py", "pyembroidery/XxxReader.py", "pyembroidery/U01Reader.py", "pyembroidery/TbfReader.py"],
  [("length checks before use", "*Reader.read: if len(b) != n: break")], ["read_*(truncated stream)"])
P("C32", "Palette files keep the thread list",
  "Writing a pattern's threads as COL, EDR or INF and reading the file back gives the same number of threads in the same "
  "order with the same colours (and for INF the names and charts); COL and INF number their records by position, and a record's own "
  "number is kept as the catalogue number.",
  ["inputs"], "symbolic thread lists within the stated bounds",
  "Every 24-bit colour.",
  ["pyembroidery/ColWriter.py", "pyembroidery/ColReader.py", "pyembroidery/EdrWriter.py", "pyembroidery/EdrReader.py", "pyembroidery/InfWriter.py", "pyembroidery/InfReader.py"],
  [("thread records", "ColWriter/EdrWriter/InfWriter.write and readers")], ["read_col/edr/inf(write_*(pattern))"])
P("C33", "HUS decompression follows its format for every compressed bit string",
  "Expanding HUS-compressed data yields the bytes defined by its Huffman tables, literals and back-references, for every "
  "bit string with valid complete code tables, stopping at the first token that reaches the declared output length; what "
  "compress makes of any bytes expands to them again.",
  ["inputs"], "every short compressed bit string",
  "Bit-level decoder; tests have no compressed fixtures of their own.",
  ["pyembroidery/EmbCompress.py", "pyembroidery/HusReader.py"],
  [("Huffman tables", "EmbCompress.Huffman"), ("expansion", "EmbCompress.decompress")], ["EmbCompress.expand"])
P("C34", "Text exports (G-code, SVG, TXT) state the design's coordinates exactly",
  "G-code, SVG and TXT exports list every penetration in order with coordinates equal, to the digits written, to the "
  "pattern's after the configured (or default) transformation, G-code emits its stop and end words at the same places, "
  "SVG draws each stitch block as one path in its thread's colour, TXT names each line's command and thread colour; and "
  "the G-code reader moves by exactly the distances its words state in the units, mode, case and spacing they are written "
  "in.",
  ["inputs"], "command sequences with symbolic coordinates within the stated bounds",
  "Numeric formatting per value.",
  ["pyembroidery/GcodeWriter.py", "pyembroidery/TxtWriter.py", "pyembroidery/SvgWriter.py"],
  [("line formats", "GcodeWriter.write, TxtWriter.write")], ["text written"])
P("C35", "The PNG export is a valid image of the design",
  "The PNG writer produces a well-formed 8-bit RGBA image (every chunk's length and checksum right, every row complete) "
  "of the design's extents plus a margin; each stitch block's consecutive penetrations are joined, later ones on top, by "
  "a connected line within half a pixel of the straight one, of the requested width, in the thread's colour (near-black "
  "shown dark grey), nothing else is painted, and what falls outside the canvas is dropped; guides never make it fail and "
  "shading stays within [0,1], symmetric along the line.",
  ["inputs"], "every line, pixel, colour and small design within the stated bounds",
  "Rasteriser and clipping errors show only for particular slopes, widths and positions; the tests only write files.",
  ["pyembroidery/PngWriter.py"],
  [("file form", "PngWriter.write_png"), ("rasteriser", "PngBuffer.draw_line, line_for_point, plot, gradient, draw_text")], ["PNG bytes"])
P("C36", "Generic writer emits balanced open and close events",
  "The generic text writer writes, in order, the template of each command that has one (else the default segment) with "
  "that command's exact position values, nested in block, colour and document scopes that the design's structure calls "
  "for: every scope opened is closed exactly once and in nesting order, joins stand between siblings only, indices count "
  "from zero, trims end blocks, colour changes end colours, ends end documents; statistics, metadata and threads are "
  "stated exactly.",
  ["inputs", "histories"], "every command sequence within the stated bounds",
  "Nesting depends on the order of colour changes, stops, trims and the end of the design.",
  ["pyembroidery/GenericWriter.py"],
  [("scope tracking", "GenericWriter.open_*/close_*")], ["text written"])
P("C37", "Header texts, colour tables and previews are read back",
  "What a file's header says about the design reaches the reader's pattern: the DST name and, in the extended header, "
  "author, copyright and every thread's colour, description and catalogue number; the PEC label, and each preview picture "
  "with its block's thread; from a PES header of every known version its texts and threads (one thread per block if there "
  "are enough, else by first use of each colour number, else the PEC palette's) with the design found behind it; the G-code "
  "thread comments; the SHV name. What is absent stays absent, and no text is taken for stitches or commands.",
  ["inputs"], "symbolic texts, colours, colour numbers and stitches within the stated bounds, per format and header version",
  "Only two PES versions can be written here, so round trips never exercise the other headers; text contents matter.",
  ["pyembroidery/DstWriter.py", "pyembroidery/DstReader.py", "pyembroidery/PecReader.py", "pyembroidery/PecWriter.py", "pyembroidery/PesReader.py", "pyembroidery/GcodeReader.py",
   "pyembroidery/GcodeWriter.py", "pyembroidery/ShvReader.py"],
  [("header parsing", "dst_read_header, process_header_info, read_pes_header_version_*, read_pes_metadata, read_pes_thread"),
   ("threads to blocks", "PecReader.map_pec_colors"), ("comments", "GcodeWriter.write_metadata, write_threads")], ["pattern.extras and threadlist after reading"])
P("C38", "Files are read and written by their extension",
  "Reading, writing or converting a named file uses the reader or writer of its extension, whatever its letters' case and "
  "whatever base name (dots included) precedes it, by every access path (module functions, constructor, methods, static "
  "methods, read_x and write_x), with the same result as handing an open file to that format: settings are passed on "
  "unchanged and not modified, exactly the named file is written. A name with no known extension reads as None and raises "
  "IOError on writing without touching a file; so do formats lacking a reader or writer. Every format is listed once. The "
  "caller's stitch and jump limits rule, the format's own apply otherwise.",
  ["inputs", "histories"], "every base name, spelling of the extension and setting within the stated bounds, for every format",
  "The tests use one lower-case name per format and mostly one access path.",
  ["pyembroidery/EmbPattern.py", "pyembroidery/PyEmbroidery.py"],
  [("dispatch", "static_read, static_write, read_embroidery, write_embroidery, get_extension_by_filename, supported_formats"),
   ("shortcuts", "read_*, write_*, convert, EmbPattern.__init__")], ["file contents, reader results"])

P("C39", "Colour numbers in a file become the published thread of the format",
  "For every colour number a PEC, PHB, PHC, JEF, SEW, HUS, SHV or PCM file may hold, the thread list gets the thread that the format's "
  "palette publishes under that number (colour, description, catalogue number, brand and chart), numbers beyond the palette wrapping round; "
  "in table order, one thread for each entry, the stitches being found behind a table of any size. Repeated neighbouring numbers in PEC, PHB "
  "and PHC and colour 0 behind the first in JEF read as a stop in place of a thread. Colour changes beyond the table leave the design readable, "
  "no entry of the list is empty, and a design without colours has none. JPX keeps the number as description, ZHS the 24-bit colour with chart, "
  "description and catalogue texts. Threads belong to the design alone: changing them does not change what the next design reads.",
  ["inputs"], "every colour number of each field, 24-bit colour and text within the stated bounds",
  "The tests read a handful of sample files with a few of the several hundred palette entries.",
  ["pyembroidery/EmbThreadPec.py", "pyembroidery/EmbThreadJef.py", "pyembroidery/EmbThreadSew.py", "pyembroidery/EmbThreadHus.py", "pyembroidery/EmbThreadShv.py",
   "pyembroidery/PecReader.py", "pyembroidery/PhbReader.py", "pyembroidery/PhcReader.py", "pyembroidery/JefReader.py", "pyembroidery/SewReader.py",
   "pyembroidery/HusReader.py", "pyembroidery/ShvReader.py", "pyembroidery/PcmReader.py", "pyembroidery/JpxReader.py", "pyembroidery/ZhsReader.py"],
  [("palettes", "get_thread_set of the EmbThread* modules"), ("tables", "read of the listed readers")], ["threadlist, commands"])

P("C40", "Every record of the two-way formats decodes to its defined meaning",
  "Read back from any file, not only the library's own, each record of a DST, EXP, JEF, PEC, U01, XXX, TBF, VP3 or PMV stitch section becomes the command and displacement the "
  "format defines: balanced-ternary, 7-, 8-, 12- and 16-bit coordinates with their signs, stitches, jumps, trims, colour, needle and speed changes, stops, sequin records by the mode "
  "they occur in, records carrying both a command and a displacement, commands the library itself never writes, TBF needles by the header's order, JEF colour 0 as a stop, VP3 block starts "
  "and long stitches, PMV's half-relative curve; the end record and nothing else ends the design, and an END closes it.",
  ["inputs"], "every byte of the records within the stated bounds, behind several headers",
  "The tests read back what the library wrote, in which most control codes and extreme coordinates never occur.",
  ["pyembroidery/DstReader.py", "pyembroidery/ExpReader.py", "pyembroidery/JefReader.py", "pyembroidery/PecReader.py", "pyembroidery/U01Reader.py", "pyembroidery/XxxReader.py",
   "pyembroidery/TbfReader.py", "pyembroidery/Vp3Reader.py", "pyembroidery/PmvReader.py", "pyembroidery/ReadHelper.py"],
  [("records", "dst_read_stitches, read_exp_stitches, read_jef_stitches, read_pec_stitches, read_u01_stitches, read of XXX, TBF, VP3, PMV")], ["stitches, threadlist"])
