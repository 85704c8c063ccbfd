#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=list(observe); a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Every IFD entry value is decoded from exactly its own bytes",
 "For every Exif/TIFF block in either byte order, an entry returned with a value carries exactly the value its data format, component count and value bytes determine, where the value bytes are the first format-size x count bytes of the inline field when that product is at most four and otherwise that many bytes at the stored offset from the start of the TIFF header. An entry whose format code is not 1..12, whose value bytes do not lie wholly inside the block, or whose count is zero (or not one, for signed 8/16/32-bit integers and floats) is returned as an error naming its tag, never as a value. Decoding one entry never changes what any other entry yields. (A TIFF file that ends before data its directories refer to is an unexpected-end error as a whole.)",
 ["inputs"],"all byte strings as TIFF blocks, both endiannesses, all 2^16 tags, all formats, all 2^32 counts and offsets",
 "The tests decode some fifteen camera files whose entries all follow the usual layouts; they never vary format x count x offset independently, so an off-by-one at the inline boundary, a wrong endian branch or a wrong bound survives them.",
 ["src/exif/exif_iter.rs","src/values.rs","src/slice.rs","src/exif/exif_exif.rs"],
 [("inline/offset selection and bounds check","IfdIter::parse_entry, src/exif/exif_iter.rs"),("typed decoding per data format","EntryValue::parse, src/values.rs"),("endian integer reads","impl_try_from_bytes!, decode_rational, src/values.rs")],
 [("format/count/value-or-offset","the 12-byte IFD entry","IfdIter::parse_tag_entry")],["MediaParser::parse_exif over a crafted TIFF"])

p("P02","IFD traversal yields each entry once, in file order, and terminates",
 "Iterating a TIFF block yields the entries of the first directory in stored order, descending into the Exif and GPS sub-directories right after the pointer entry that names them, and afterwards the entries of the directories linked by next-directory offsets, each labelled with its directory index. Every entry is yielded exactly once - a later entry with the same directory index and tag as one already yielded with a value is dropped, entries that fail to decode are yielded as errors - except that outside the GPS directory tag 0 ends its directory. Directory offsets that repeat or form cycles never hide the rest of the enclosing directory, and iteration always ends.",
 ["inputs"],"all byte strings as TIFF blocks, including arbitrary graphs of directory offsets with sub-directory nesting below eight",
 "Tests only walk well-formed camera files whose directory graph is a short chain; cycles, repeated offsets, failing entries in the middle and next-directory links at the end of the data do not occur in them.",
 ["src/exif/exif_iter.rs","src/exif/exif_exif.rs"],
 [("directory stack and visited set","ExifIter::next, src/exif/exif_iter.rs"),("entry cursor","Iterator for IfdIter, src/exif/exif_iter.rs"),("duplicate filter","ExifIter::should_include_tag")],
 [("ifds","stack of directories being walked","ExifIter"),("visited_offsets","directory offsets already entered","ExifIter"),("encountered_tags","(directory, tag) pairs already yielded","ExifIter")],
 ["ExifIter::next","Exif::iter","Exif::errors"])

p("P03","Lazy, rewound, cloned and eager views of Exif data agree",
 "At whatever point an Exif iterator is rewound or cloned, the rewound iterator and the clone yield the same entries in the same order as a fresh parse, and asking for GPS information or the embedded-track flag never advances or changes an iterator. Converting an iterator to the eager form at any point yields the decoded values, the errors and the GPS information of exactly the entries the iterator still had to yield, with each value found under its directory and tag. This holds as well for CR3 files, whose directories are spread over several TIFF blocks that are read in file order.",
 ["inputs","histories"],"all Exif sources including multi-block CR3, all interleavings of next/rewind/clone/parse_gps/into",
 "The tests rewind and clone once on single-block files; multi-block sources, partial consumption and interleaving are never exercised.",
 ["src/exif/exif_iter.rs","src/exif/exif_exif.rs","src/exif/ifd.rs","src/parser.rs","src/cr3.rs","src/bbox/cr3_moov.rs"],
 [("rewind and clone_rewound","ExifIter, src/exif/exif_iter.rs"),("block switching","ExifIter::load_next_block"),("eager conversion","From<ExifIter> for Exif, src/exif/exif_exif.rs"),("CMT block collection","src/cr3.rs, src/parser.rs")],
 [("current_block_index / additional_blocks","position in a multi-block source","ExifIter")],["ExifIter API","Exif API"])

p("P04","A JPEG yields exactly its first Exif APP1 segment before SOS",
 "For every byte string starting with the JPEG start-of-image marker and followed by marker segments of arbitrary type and length, parsing Exif uses exactly the payload behind the Exif identifier of the first APP1 segment carrying that identifier before start-of-scan, whatever other segments (including other APP1 kinds) precede it. If start-of-scan comes first the result is the no-Exif error, if the data ends first it is an unexpected-end error, and a segment length below two or a missing marker prefix is a malformed-file error - never data from elsewhere in the file.",
 ["inputs"],"all sequences of JPEG segments with all lengths and payloads",
 "The tests use about ten camera JPEGs in which Exif is the first or second segment.",
 ["src/jpeg.rs","src/exif.rs","src/exif/exif_exif.rs"],
 [("segment walk","find_exif_segment, parse_segment, src/jpeg.rs"),("payload selection","extract_exif_data, src/jpeg.rs"),("identifier test","check_exif_header, src/exif/exif_exif.rs")],(),["MediaParser::parse_exif on a crafted JPEG"])

p("P05","Motion Photo trailers are detected and located by their declared length",
 "For a JPEG whose XMP APP1 segments before start-of-scan declare a Motion Photo (or Micro Video), the embedded-track flag is set exactly when a trailer length is declared, and that length is the sum the container directory gives for the motion-photo item and all items behind it (padding of the last item excluded), or else the motion-photo or micro-video offset attribute. Track parsing of that file parses exactly the last that-many bytes of the file as a video, in memory as from a stream, and reports no track when there is no declaration or the declared length exceeds the file. A declaration whose XMP segments lie beyond what the Exif parse has loaded is still found within the first quarter mebibyte.",
 ["inputs"],"all JPEG segment sequences and XMP packets, all declared lengths, all positions of the XMP segment",
 "Four sample files with fixed layouts are tested; sums over several container items, missing attributes, oversize lengths and split positions of the XMP segment are not.",
 ["src/jpeg.rs","src/parser.rs"],
 [("XMP scan","scan_motion_photo, parse_motion_photo_offset, container_motion_photo_offset, src/jpeg.rs"),("trailer parse","parse_jpeg_motion_photo, src/parser.rs"),("flag","compute_has_embedded_track, src/parser.rs")],(),["ExifIter::has_embedded_track","MediaParser::parse_track on a JPEG"])

p("P06","HEIF/AVIF/CR3 Exif bytes are exactly those the container declares",
 "For every HEIF or AVIF file, the Exif data used is exactly the bytes that the item-location box gives for the item the item-information box types as Exif, behind the Exif identifier and with item offsets, base offsets and construction method applied as declared, whatever other boxes, box sizes (32- or 64-bit) and orders surround them; for every CR3 file the blocks used are exactly the bodies of the CMT1 and CMT2 boxes of the Canon box inside the movie box (the maker notes in CMT3 are not read). Box walking never reads outside the enclosing box, and a declared range that overflows or lies outside the file is an error, never other bytes.",
 ["inputs"],"all ISO base media box trees with arbitrary sizes, versions, item tables and extents",
 "Three HEIC/AVIF samples and one CR3 sample fix box order, versions and field widths; other iloc/iinf versions, 64-bit sizes, multiple items and overflowing offsets are never sampled.",
 ["src/bbox.rs","src/bbox/iloc.rs","src/bbox/iinf.rs","src/bbox/meta.rs","src/bbox/uuid.rs","src/bbox/cr3_moov.rs","src/heif.rs","src/cr3.rs"],
 [("box header and sibling walk","BoxHeader::parse, BoxHolder::parse, travel_header, find_box, src/bbox.rs"),("item location","src/bbox/iloc.rs, src/bbox/meta.rs"),("item typing","src/bbox/iinf.rs"),("CR3 metadata box","src/bbox/cr3_moov.rs, src/bbox/uuid.rs")],(),["MediaParser::parse_exif"])

p("P07","MP4/QuickTime track info equals what the movie box declares",
 "For every MP4 or QuickTime file whose movie box is well formed, duration (in milliseconds, from time scale and duration), creation time, and the width and height of the first video track equal the values stored in the movie and track headers, in both header versions and for every box order and size encoding. Metadata keys and item list entries are paired by index, so make, model, software, author, location and creation date each carry exactly the text stored for that key; the movie-box item-list creation date takes precedence over the movie header. A declared location string yields the coordinates it denotes.",
 ["inputs"],"all movie boxes: field values, header versions, key/item tables, box order and nesting, position of the movie box in the file",
 "Six sample videos fix every header version and table; time scales of zero, 64-bit headers, and reordered or missing tables are not sampled.",
 ["src/mov.rs","src/video.rs","src/bbox/mvhd.rs","src/bbox/tkhd.rs","src/bbox/keys.rs","src/bbox/ilst.rs","src/bbox.rs"],
 [("movie box location","extract_moov_body_from_buf, src/mov.rs"),("headers","src/bbox/mvhd.rs, src/bbox/tkhd.rs"),("key/value tables","src/bbox/keys.rs, src/bbox/ilst.rs"),("tag mapping","convert_video_tags, parse_mvhd_tkhd, src/mov.rs")],(),["MediaParser::parse_track"])

p("P08","WebM/Matroska track info equals what the EBML elements declare",
 "For every well-formed WebM or Matroska file, the reported duration is the stored duration times the stored (or default) timestamp scale, the creation date is the stored date counted from 2001, and width and height are those of the first video track, for all element orders, variable-length-integer widths, value widths, interspersed unknown or void elements and with or without a seek index. A variable-length integer is decoded to exactly its value and length for all one to eight byte encodings, and truncated or invalid elements give an error or a missing value, never another element's bytes.",
 ["inputs"],"all EBML documents: integer encodings, element orders, sizes and nesting",
 "One WebM and one MKV sample fix every width and order (and use 8-byte durations only).",
 ["src/ebml/vint.rs","src/ebml/element.rs","src/ebml/webm.rs"],
 [("variable-length integers","VInt::parse_unsigned, src/ebml/vint.rs"),("element walk","next_element_header, travel_while, find_element_by_id, src/ebml/element.rs"),("values","get_as_u64, get_as_f64, src/ebml/element.rs"),("info/tracks/seek","src/ebml/webm.rs")],(),["MediaParser::parse_track"])

p("P09","PNG text chunks and Exif are returned exactly as stored",
 "For every PNG, the text entries returned are exactly the Latin-1 decoded keyword/text pairs of its uncompressed text chunks before the end chunk, in file order, except chunks without a keyword separator or over the documented size caps, which are skipped without affecting any other chunk. The Exif block used is the last eXIf chunk if there is one, otherwise the hex-encoded legacy profile text (APP1 before exif), with an undecodable legacy profile treated as absent (an undecodable eXIf chunk is an error). Chunk lengths, types and positions never make one chunk's bytes appear as another's.",
 ["inputs"],"all chunk sequences with all types, lengths and payloads, including chunks larger than the parse buffer",
 "The tests build a handful of tiny PNGs with one or two chunks that fit in a single read.",
 ["src/png.rs","src/exif/png_text.rs","src/image_metadata.rs","src/parser.rs"],
 [("chunk walk","extract_chunks and helpers, src/png.rs"),("text decode and caps","src/png.rs"),("legacy profile decode","src/png.rs"),("text accessors","src/exif/png_text.rs")],
 [("collected state","text and Exif found before a skipped chunk","PngCollected, src/png.rs")],["MediaParser::parse_image_metadata","MediaParser::parse_exif"])

p("P10","Input mode and read granularity never change the result",
 "Parsing the same bytes as a memory buffer, a seekable stream, a forward-only stream or an asynchronous stream, with every possible division of the stream into reads, gives the same entries, metadata and flags, or an error in every mode. This covers files larger than one read and regions that are skipped rather than loaded; documented exceptions are the directory of the embedded thumbnail in a streamed TIFF, the quarter-mebibyte search window of the embedded-track flag, and track parsing of images asynchronously.",
 ["inputs","schedules"],"all inputs x all input modes x all partitions of the stream into reads",
 "Tests compare at most two modes on the sample files, always with full-size reads.",
 ["src/parser.rs","src/parser_async.rs","src/exif.rs","src/exif/travel.rs","src/image_metadata.rs"],
 [("load loop and skip handling","BufParser::load_and_parse_with_offset, clear_and_skip, src/parser.rs"),("async twin","src/parser_async.rs"),("memory fast path","src/parser.rs"),("stream pre-scan of directories","src/exif/travel.rs")],
 [("buffer and position","loaded bytes and how many are consumed","BufferedParserState, src/parser.rs")],["MediaParser::parse_exif/parse_track/parse_image_metadata and async twins"])

p("P11","A reused parser has no memory, and results outlive it unchanged",
 "The result of parsing a source with a parser does not depend on what the parser parsed before - of which kind, with which outcome, or in which input mode. Results obtained earlier keep the same content whatever the parser does later.",
 ["histories","inputs"],"all finite sequences of parses (successful and failing, all formats, all modes) on one parser",
 "Tests reuse a parser for two or three successful parses of similar files and rarely re-inspect an earlier result afterwards.",
 ["src/parser.rs","src/parser_async.rs"],
 [("buffer recycling","BufferedParserState::acquire_buf, reset, share_buf and the cached buffer, src/parser.rs")],
 [("cached buffer","bytes shared with earlier results","BufferedParserState")],["MediaParser used repeatedly"])

p("P12","Work and memory are bounded by bytes actually read, never by declared sizes",
 "However large the sizes, counts or offsets a file declares, the parser never allocates more memory than a fixed multiple of the bytes it has actually read plus a constant (decoded values, which entries may share bytes for, are bounded by the sum of the entries' value sizes), and never holds more than the documented one-gibibyte parse buffer. A skip moves the stream forward by exactly the declared amount or fails, and input that ends early is reported as an error (or the data found so far) without looping.",
 ["inputs","fault_sequences"],"all inputs with arbitrary declared sizes; all points at which the stream ends or fails",
 "No test measures allocation, and crafted-size tests cover three individual fields.",
 ["src/parser.rs","src/parser_async.rs","src/bbox.rs","src/bbox/iloc.rs","src/bbox/ilst.rs","src/bbox/keys.rs","src/png.rs","src/ebml/webm.rs","src/cr3.rs"],
 [("fill loop and cap","fill_buf, check_fill_size, src/parser.rs"),("skip accounting","clear_and_skip, skip_by_read, src/parser.rs"),("table caps","src/bbox/iloc.rs, src/png.rs")],(),["allocation counter around MediaParser calls"])

p("P13","Public value conversions are exact and total",
 "Every public accessor and conversion of an entry value returns exactly the stored value or a value-preserving widening of it, and nothing when the stored kind does not fit: integers widen only if representable, integers convert to floating point as the nearest double and rationals as numerator over denominator, only with a non-zero denominator, signed rationals become unsigned only when neither part is negative, and no accessor panics. Text that is not valid UTF-8 is decoded byte for byte as Latin-1, with leading zero bytes and everything from the next zero byte on removed.",
 ["inputs"],"all values of every variant, all bit patterns",
 "The tests check a few numbers per accessor; edge values (maximum, minimum, negative zero, zero denominators) of each variant are not covered.",
 ["src/values.rs"],
 [("accessors","EntryValue::as_*, try_as_integer, try_as_float, src/values.rs"),("rationals","Rational, TryFrom<IRational> for URational, src/values.rs"),("text","get_cstr, filter_zero, src/values.rs")],(),["EntryValue API"])

p("P14","GPS data becomes the position it denotes",
 "GPS information reported for an Exif source has exactly the reference letters, degree/minute/second rationals, altitude (with its sea-level sign) and speed stored in its GPS directory, with absent or invalid fields reported as unknown or default and never taken from other entries. Decimal conversion gives degrees + minutes/60 + seconds/3600 with the sign of the reference, decimal degrees within 180 convert back to within half a hundredth of an arc second, and out-of-range or non-finite degrees are rejected. Printing a position in ISO 6709 form and parsing it again gives the same position up to the printed precision.",
 ["inputs"],"all GPS directories, all rational triples, all decimal degrees",
 "Tests use about five positions, all with positive, small, exactly representable parts.",
 ["src/exif/gps.rs","src/exif/exif_iter.rs"],
 [("directory to position","IfdIter::parse_gps_info, ExifIter::parse_gps, src/exif/exif_iter.rs"),("conversions","LatLng, GPSInfo, src/exif/gps.rs")],(),["ExifIter::parse_gps","GPSInfo API"])

p("P15","Tag codes, names and identifiers form consistent bijections",
 "For all 65536 tag codes, a code is recognised exactly when some known tag has that code, and then converting tag to code, code to tag, tag to name and name to tag are mutually inverse; distinct known tags have distinct codes and names. A code that is not recognised is preserved as it is, and names that are not those of a known tag are rejected.",
 ["inputs"],"all 2^16 codes and all known tags; all strings for rejection",
 "Tests check a handful of tags; a duplicated or transposed table row goes unnoticed.",
 ["src/exif/tags.rs","src/video.rs"],
 [("tag table","ExifTag definition, from_code, code, name, FromStr, src/exif/tags.rs"),("known-or-code wrapper","TagOrCode, src/exif/tags.rs")],(),["ExifTag, TagOrCode, TrackInfoTag API"])

p("P16","No input makes the library panic, overflow or loop",
 "On every byte string, in every input mode and through every public entry point, the library returns a value or an error in time bounded by the input, without panicking, overflowing an integer or recursing without bound. Everything reachable from a returned result (iterators, conversions, formatting) has the same guarantee.",
 ["inputs"],"all byte strings, all entry points, all continuations on the returned values",
 "Tests contain six regression inputs from past crashes; absence of further ones is a statement about all inputs.",
 ["src/parser.rs","src/bbox.rs","src/bbox/iloc.rs","src/jpeg.rs","src/png.rs","src/exif/exif_iter.rs","src/exif/travel.rs","src/ebml/webm.rs","src/values.rs","src/exif/gps.rs"],
 [("index, slice and arithmetic guards","every parser function under contract"),("loop progress","box, segment, chunk, element and directory walks")],(),["all public parse functions"])

p("P17","The format is decided by the file's signature alone",
 "A source is treated as the format its leading bytes identify - ISO media by major brand, then by compatible brands in the documented order, EBML by document type, then TIFF, PNG, JPEG and RAF by magic number - independent of file name, later content or input mode, and a source matching none is rejected as unsupported. A source recognised as an image is refused by track parsing (Motion Photos excepted) and a video is refused by Exif parsing, with the dedicated not-found error.",
 ["inputs"],"all byte strings; all brand lists",
 "Tests check one file per format; brand lists mixing formats and near-miss signatures are not covered.",
 ["src/file.rs","src/parser.rs"],
 [("signature checks","MediaMime::try_from, parse_bmff_mime, check_png, check_jpeg, RafInfo::check, src/file.rs"),("kind dispatch","MediaKind and MediaParser entry points, src/parser.rs")],(),["MediaSource construction and MediaParser entry points"])

p("P18","Date-time entries carry the stored instant and offset",
 "The three Exif date-time tags yield exactly the stored local time; if the Exif sub-directory stores a valid offset (original, else digitised in stored order, else general) the value carries that offset, otherwise it is a local time without offset, and an unparsable time is an error entry. Accessors preserve this: the aware form exists exactly when an offset was stored, stripping the offset keeps the local time, and attaching a fallback offset never changes a value that already has one.",
 ["inputs"],"all date strings, all offset strings and tags, both byte orders",
 "Tests use two files with +08:00 and a few without; negative, half-hour, truncated and invalid offsets and their precedence are not covered.",
 ["src/values.rs","src/exif/exif_iter.rs"],
 [("offset lookup","IfdIter::find_tz_offset, src/exif/exif_iter.rs"),("date decoding","EntryValue::parse, repair_tz_str, parse_naive_time, src/values.rs"),("accessors","ExifDateTime, src/values.rs")],(),["ExifIter","ExifDateTime API"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
