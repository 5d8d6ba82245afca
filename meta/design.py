"""Writes /verif/DESIGN.md: meta/design_head.md, one section per property (how it is decided, bounds from the check), meta/design_tail.md."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HOW = {
 "C01": ("symbolic designs through write_dst and read_dst (header included); every record displacement through encode_record/decode_dx/dy", "the penetrations of the design in order, with the changes, stops and trims between them (`common.expect`), against the read-back pattern reduced the same way (`common.meaning`)", "24"),
 "C02": ("as C01 through write_exp/read_exp", "as C01; stops and changes are one record in EXP", "4"),
 "C03": ("as C01 through write_jef/read_jef, the trim detection of the reader on and off, five fixed thread lists", "as C01, and the thread list's palette entries with the stops' empty entries removed", "18"),
 "C04": ("as C01 through write_pec/read_pec, long and short records, previews stubbed", "as C01", "15"),
 "C05": ("as C01 through write_pes versions 1 and 6, full and truncated; symbolic thread colours and texts of every length class", "as C01, and colours, texts and metadata", "5"),
 "C06": ("as C01 through write_vp3/read_vp3", "as C01, block starts as absolute positions, thread data", "65"),
 "C07": ("as C01 through write_xxx/read_xxx", "as C01, colours", "7"),
 "C08": ("as C01 through write_u01/read_u01, explicit needles and speeds", "as C01 with needles and speeds", "7"),
 "C09": ("as C01 through write_tbf/read_tbf", "as C01 with needles, thread table and texts", "23"),
 "C10": ("the real encoder on symbolic designs with every pair of limits and long-stitch policies", "every written move within its limit, the penetrations of the source kept in place and order, those inserted on the line between", "26"),
 "C11": ("the real encoder over the whole 8-bit vocabulary and beyond in every place", "a small grammar of low-level streams: only low-level commands, one END, sequins only in sequin mode, no trims after trims", "19"),
 "C12": ("the real encoder over block words with named threads and needles", "an independent block model: thread i belongs to block i, one change between neighbours, needle numbers by count", "19"),
 "C13": ("EmbMatrix and EmbPattern transformations on unbounded reals (z3 NRA; rotation as a unit-circle point)", "linear algebra: composition, inverse, identity, points moved exactly, order of operations", "9"),
 "C14": ("the encoder's matrix commands and settings on real positions", "the affine map in force at each stitch, applied to its source position", "4"),
 "C15": ("encode/decode of thread-change words, full width", "exact inverse, injective, no leakage into the command byte", "2"),
 "C16": ("every binary read and write helper, full width", "the byte value by definition of the order and the two's complement; short reads give None", "1"),
 "C17": ("write_csv/read_csv in three layouts on symbolic records, commands, threads and metadata text (character level)", "the records, threads and metadata put in", "24"),
 "C18": ("write_json/read_json likewise (json itself is trusted)", "the records, threads and metadata put in", "7"),
 "C19": ("histories of builder calls, bounds, counts, moves", "a list model of the pattern with a running position", "6"),
 "C20": ("+, +=, add_pattern, copies followed by mutations", "list models of both operands before and after", "15"),
 "C21": ("each clean-up pass on symbolic designs and thresholds", "per pass: what it may remove, add or retag, everything else unchanged", "44"),
 "C22": ("all block iterators and thread iterators", "concatenation gives back the pattern, each block homogeneous, none empty, right thread", "3"),
 "C23": ("palette search and palette building with symbolic colours", "no other available entry is nearer (the stated distance), repeated colours and chart order as stated", "23"),
 "C24": ("each reader-only format on symbolic record bytes and cut records", "an independent decoding of the record layout", "36"),
 "C25": ("the writers on symbolic designs; their headers re-parsed from the bytes", "counts, offsets, lengths and extents recomputed from the records that follow", "16"),
 "C26": ("the writers on fractional coordinates", "every written position within rounding of the source, no accumulation", "10"),
 "C27": ("the bitmap functions and preview sections of PEC and PES", "pixel of a point by the exact ratio; the bytes outside the frame untouched", "25"),
 "C28": ("17 writers, normalising and get_ calls, each twice, on symbolic designs", "a snapshot of the source and the settings before; equal outputs", "5"),
 "C29": ("thread colour setters, getters, distance and equality, full width", "channel arithmetic by definition; the CSS table in checks/css.py", "3"),
 "C30": ("the encoder with ties", "a lock of short stitches at each end of thread, rest as without ties", "8"),
 "C31": ("readers on symbolic files cut at every byte", "the commands of the uncut file up to the last whole record before the cut, then END", "11"),
 "C32": ("COL, EDR and INF writers and readers", "the thread list put in", "3"),
 "C33": ("EmbCompress.expand on symbolic bit strings, read_hus on symbolic streams", "an independent bit-level model of the Huffman/LZ format", "10"),
 "C34": ("G-code, TXT and SVG writers; the G-code reader on generated programs with symbolic numbers", "positions and colours re-read from the text by the check's own parser", "15"),
 "C35": ("PngWriter whole images, lines, single pixels and the file form", "geometric: every stitched pixel covered, no pixel farther than half the width, colours blended, chunks well formed", "11"),
 "C36": ("GenericWriter with every subset of templates", "an independent model of nesting and fields", "10"),
 "C37": ("header texts, colour tables and previews of DST, PEC, PES, SHV, G-code", "the texts put in, or the hand-laid file's fields", "4"),
 "C38": ("every access path over an in-memory folder, names with symbolic letters; the module that is called is recorded", "the format's reader or writer called directly on a stream", "4"),
 "C39": ("the readers on hand-laid files whose colour numbers and colours are symbolic", "the published palettes, listed in checks/palettes.py", "2"),
 "C40": ("the readers on records every byte of which is symbolic, and on hand-laid VP3 and PMV files", "an independent decoder of each record format", "5"),
}

def consts(p):
    o = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE"):
            try: o[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: o[n.targets[0].id] = ast.unparse(n.value)
    return o

seeds = {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["what_it_breaks"].rstrip(".")))
out = [open(H + "/meta/design_head.md").read().rstrip(), "", "## Per property", ""]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c = consts("%s/checks/%s.py" % (H, i)); how, orc, cost = HOW[i]
    out += ["### %s %s" % (i, p["title"]),
            "Encoded: %s. Oracle: %s. Quick run about %s s." % (how, orc, cost),
            "Bounds: %s" % c["BOUNDS"], "Outside: %s" % c["OUTSIDE"]]
    if i in seeds: out.append("Planted bugs caught by this check: " + "; ".join("%s (%s)" % s for s in seeds[i]) + ".")
    out.append("")
out.append(open(H + "/meta/design_tail.md").read().rstrip())
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
