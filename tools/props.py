"""Per property: the Verus units and Kani harnesses that decide it, and the
bounded executable contract that stands in for what surrounds them."""
TRUSTED_ALWAYS = [
    "Verus and Z3; rustc",
    "the extraction rules of tools/extract.py (listed as RULES there)",
    "that the verified stand-ins in shim/ (nom, slice methods) behave as the real dependencies do; compared with real nom on generated inputs by the bounded suites only",
]
# obligations generated per unit on the reference tree: fewer means part of the unit vanished
BASE_OBLIGATIONS = {}

def P(units=(), kani=(), level="exploration", rule="", samples=(), assumptions=(), explanation="", scale=400, deep=12, outside=""):
    return dict(units=list(units), kani=list(kani), level=level, rule=rule, samples=list(samples), assumptions=list(assumptions), explanation=explanation, scale=scale, deep=deep, outside=outside)

GEN = "Files are generated from a seed together with what the format's specification says they contain; the library's answer through its public API is compared with that. A case counts as distinct when its bytes differ from every other case of the run. "
PROPS = {
"P01": P(rule=GEN + "TIFF blocks in both byte orders with every format code, counts around zero, one and the inline limit, offsets inside, at and past the end, random tags."),
"P02": P(rule=GEN + "TIFF blocks with nested Exif/GPS directories, chains, cycles, shared and overlapping directories, duplicate tags, tag zero, 65535 entries."),
"P03": P(rule=GEN + "TIFF, JPEG and CR3 sources; an iterator is advanced a random number of steps, then rewound, cloned or made eager at random points."),
"P04": P(rule=GEN + "JPEG byte strings with random segment lists around the Exif segment, truncations, bad lengths and bad marker prefixes."),
"P05": P(rule=GEN + "JPEGs with XMP declarations in all three layouts, items in all orders, paddings, wrong lengths, far segments, each followed by a movie."),
"P06": P(rule=GEN + "HEIF, AVIF and CR3 files with all iloc/infe versions and field widths, construction methods, 32/64-bit box sizes, decoy boxes and items, ranges outside the file."),
"P07": P(rule=GEN + "Movies with version 0/1 headers, random box orders and sizes, several tracks, key lists with gaps, user data lists, decoy boxes."),
"P08": P(rule=GEN + "EBML documents with all integer widths and lengths, element orders, voids, unknown elements, seek heads, several tracks, truncations."),
"P09": P(rule=GEN + "PNGs with text, eXIf and legacy profile chunks in any order, oversized and malformed ones, fake chunk headers inside data."),
"P10": P(rule="Generated, mutated and truncated files of all nine kinds and the repository's samples are parsed in memory, seekable, forward-only and asynchronous modes with pseudo-random read sizes down to one byte; all answers have to be equal up to which error it was."),
"P11": P(rule="A random history of sources (all kinds, modes and outcomes) is parsed with one parser; each result has to equal the one a fresh parser gives, and results kept from earlier are rendered again at the end."),
"P12": P(rule="Files declaring huge sizes, counts and offsets in every known field are parsed under a counting allocator (bound 64 x bytes read + 1 MiB) and through streams that record every read and seek."),
"P13": P(rule="Values of every kind, boundary integers and random bit patterns through every public accessor and conversion, against arithmetic done in wider types."),
"P14": P(rule=GEN + "GPS directories with every field present, absent, malformed or of the wrong type; decimal degrees over random doubles; ISO 6709 strings printed and parsed."),
"P15": P(rule="All 65536 tag codes are enumerated (exhaustive), and known names, their near misses and random strings."),
"P16": P(rule="Mutated and random files of all kinds, directory graphs, and random strings through every public entry point and every accessor of what comes back, built with overflow checks; a watchdog reports a case that does not finish."),
"P17": P(rule="Brand lists, document types and magic numbers, intact, damaged by one byte or bit, and mixed; the expected kind comes from the documented order."),
"P18": P(rule=GEN + "Date-time and offset texts, valid, near-valid and random, in every presence combination of the three tags and offsets."),
}
SAMPLE = {"P15": ["for every code c in 0..=65535: ExifTag::from_code(c) is Some(t) iff c is in the tag table, and then t.code() == c"]}
for k, v in PROPS.items():
    if not v["samples"]:
        v["samples"] = SAMPLE.get(k, [f"replay {k} --only <suite>:<seed> regenerates any case; the first of a run with seed 1 are numbered <suite>:1000000 .."])
    v["assumptions"] = v["assumptions"] + ["the bounded stand-in explores generated inputs only"]

def units(p, *u, level="proof", outside=""): PROPS[p].update(units=list(u), level=level, outside=outside)
units("P01", "values", "ifd", outside="Text and date-time texts are decoded by std and chrono, the bit patterns of floats by std: their results are uninterpreted.")
units("P02", "walk", "ifd")
units("P03", "walk", "exif", outside="How a CR3 file's blocks are found is P06's; the iteration order of the eager form's HashMap is not specified.")
units("P04", "jpeg")
units("P13", "access", "values", level="exploration")
units("P14", "gps", "exif", level="exploration", outside="Decimal degrees and ISO 6709 text are floating-point computations and formatting, outside the verifier's reach: bounded only.")
units("P15", "tags", outside="Names (string tables) are enumerated completely by the executable contract.")
units("P06", "bbox", "heif", "cr3", outside="UTF-8 decoding is std's (uninterpreted); that a slice lies in the buffer it was cut from is assumed where its address is taken.")
units("P07", "moov", "mov", "video", outside="chrono (which dates exist, ISO 8601 text), the ISO 6709 parser, UTF-8 decoding and float bit patterns are uninterpreted: which bytes and numbers go into them is proved. That the movie box found reaches the parser whole through the skipping reader is explored.")
units("P08", "ebml", "webm", "video", outside="Floating-point arithmetic (the duration), chrono and the text of errors are uninterpreted: which numbers go into them is proved.")
units("P09", "png", "glue", "glue_async", outside="UTF-8 and str::lines are uninterpreted or stated as std documents them; how the accessors show the entries is explored. That the parsing loop, whatever the reads, ends with the answer for the whole stream is proved.")
units("P05", "motion", "jpeg", outside="That the tail of the file reaches the movie parser, and how the flag is shown, are explored.")
units("P10", "parser", "parser_async", "travel", "glue", "glue_async", level="exploration", outside="Proved: a PNG's Exif and metadata are those of the whole stream whatever the reads and skips; a directory of a streamed TIFF that its pre-scan accepted reads the same in the loaded part as in the whole file; whatever the reader, its reads and its skipping, a parse ends with what the format's extractor answers at the places its skips lead to, and `too short` only when the extractor has seen everything. That each extractor's answer is the same on every long enough piece is explored.")
units("P11", "parser", "parser_async", level="exploration", outside="Proved: a reset parser holds nothing, a parse starts from an empty buffer and ends in what its own stream determines; a shared buffer is never written again. The composition in the public entry points is explored.")
units("P12", "parser", "parser_async", level="exploration", outside="Proved: a fill asks for at most one gibibyte in all and adds what the reader gives, a skip moves the stream by exactly its distance or fails, the loop ends. Allocation inside the extractors is measured.")
units("P16", "access", "bbox", "cr3", "ebml", "exif", "file", "glue", "glue_async", "gps", "heif", "ifd", "jpeg", "moov", "motion", "mov", "parser", "parser_async", "png", "tags", "travel", "values", "video", "walk", "webm", level="exploration", outside="Proved for every function under contract (the list in the evidence): no panic, no overflow, no index outside, and every loop and recursion ends. A failed obligation of another kind is the business of the property it belongs to. The rest of the crate, Display and serialization, and dependencies are explored.")
PROPS["P16"]["safety"] = True
units("P18", "values", "ifd", "exif", "access", level="exploration", outside="Which texts are dates is chrono's; the repair of offset texts and the conversions of ExifDateTime are explored.")
units("P17", "file", outside="That the bytes handed to the recogniser are the head of the source, and the refusal of the wrong kind, are explored.")
