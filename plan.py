"""The properties, the harnesses that decide them, and what they are bounded by."""

ASSUMPTIONS = [
    "The code decided is the LLVM IR that rustc makes of /repo/src, of its dependencies and of std (x86-64, release with overflow checks, one codegen unit): what rustc and LLVM do to it before the IR is taken, and the machine code made from it, are not covered.",
    "The executor of the IR (/verif/engine), its model of the C library (allocation, files, memory functions) and Z3 are trusted; on each run the output observed on a few solved paths is compared with a native run.",
    "Allocations never fail; no logger is installed, save in the harnesses named h_log_*; one thread.",
]


def inp(t):
    return dict(over=["inputs"], text=t)


PROPS = {}


def prop(i, title, statement, over, qtext, why, files, mech, quick, thorough=(), bounds="", bounds_thorough=None, outside="", assumptions=()):
    PROPS[i] = dict(title=title, statement=statement, quantifier=dict(over=over, text=qtext), why=why, files=files, mech=mech,
                    quick=list(quick), thorough=list(thorough), bounds=bounds, bounds_thorough=bounds_thorough or bounds, outside=outside,
                    assumptions=list(assumptions))


REGEX = dict(max_ins=20_000_000)


def rx(*a):
    return [(x, REGEX) for x in a]


def BIG(x):
    return (x, dict(max_ins=4_000_000_000))


# ------------------------------------------------------------------ PGS
PG = "src/pgs/"
prop("C01", "PGS: no input makes the decoders panic, hang or loop",
     "Whatever the bytes of a PGS stream, reading it with either decoder, iterating the pixels of the images it gives and generating images from them never panics, and the reading ends: "
     "each call gives a subtitle, an error or the end, and every item consumes part of the stream. After the end, the parser keeps saying that it is the end, even if its reader has data again.",
     ["inputs"], "every stream of bytes, well framed or not, with any segment kinds, sizes and contents",
     "28 tests read three fixture files; a decoder that indexes, subtracts or allocates from fields of the file has failing values no sample hits.",
     [PG + "decoder.rs", PG + "ods.rs", PG + "pds.rs", PG + "segment.rs", PG + "pgs_image.rs", PG + "sup.rs"],
     [("segment loop of the decoders", PG + "decoder.rs"), ("sizes of the object segments", PG + "ods.rs"), ("pixel iterator", PG + "pgs_image.rs"), ("iterator", PG + "sup.rs")],
     ["h_pgs_img_any_l", "h_pgs_time_any_l", "h_pgs_segs", "h_pgs_segs_n", "h_pgs_segs_n_l", "h_pgs_segs_f", "h_pgs_rle_l", "h_pgs_fused"],
     ["h_pgs_img_any_x", "h_pgs_time_any_x", "h_pgs_segs_f_l"],
     "any 44-byte stream (images), any 54-byte stream (times); any two well framed segments with bodies of 0-4, 7, 10-12 free bytes; any four segments (any kind) with bodies of 0-13 free bytes, any five with bodies of 4, 5, 11 or 12 free bytes; "
     "a palette and any four segments; images up to 4x3 with 8 free bytes of RLE data, iterated to the end; 65535-wide images iterated over their first pixels; a reader of two subtitles that says three times at most that it is at its end, at any place, before its end",
     "any 56-byte stream (images), any 66-byte stream (times); a palette and any five segments",
     outside="longer streams, sizes of segment bodies between those listed, complete iteration of images over 12 pixels (see C03)")
prop("C02", "PGS: subtitle times are the stamps of its two end segments",
     "The times of a PGS subtitle are the presentation stamps (90 kHz, in milliseconds, cut) of the end segment that shows it and of the next end segment. "
     "Other segments are skipped by their size, a wrong magic number or an unknown kind is an error, and a stream that ends before the second end segment gives no subtitle.",
     ["inputs"], "every stream of bytes, every value of the time stamps", "The tests compare the times of one file; stamps near 2^32, truncated headers and odd segment orders are not in it.",
     [PG + "decoder.rs", PG + "segment.rs"], [("DecodeTimeOnly::parse_next", PG + "decoder.rs"), ("read_header, skip_segment", PG + "segment.rs")],
     ["h_pgs_time_any_l", "h_pgs_chunks_any_l", "h_pgs_seq_l"], ["h_pgs_time_any_x", "h_pgs_chunks_any_x", "h_pgs_seq_x"],
     "any 54-byte stream against a byte-level reading of the format, four calls; any 42-byte stream read in pieces of 1 to 15 bytes; three subtitles with any stamps",
     "any 66-byte stream, five calls; any 52-byte stream in pieces; four subtitles", outside="longer streams")
prop("C03", "PGS: an image has exactly the pixels its run-length data encode",
     "Iterating a PGS image gives exactly width x height pixels: those its run-length codes encode, in order, each with the luminance and alpha of its palette entry; missing data give transparent pixels and data in excess are ignored. "
     "The number of pixels announced by the iterator is at each step the number it will still give, and it stays at its end.",
     ["inputs"], "every RLE data, every image size, every palette", "The tests hash the pixels of one subtitle file made by one encoder.",
     [PG + "pgs_image.rs"], [("RlePixelIterator::next and size_hint", PG + "pgs_image.rs")],
     ["h_pgs_rle_l", "h_pgs_rle_run", "h_pgs_rle_long", "h_pgs_frag", BIG("h_pgs_big"), BIG("h_pgs_big_l")], ["h_pgs_frag_l", BIG("h_pgs_big_x")],
     "images from 0x0 to 4x3 with any 8 bytes of RLE data and any palette entry; one code of any form and any count up to 300 followed by any color; runs of every length (1 to 16383) in a 16385x1 image; a 700x100, a 260x256 and a 1920x200 image with runs of all lengths and free palette colors",
     "a 1920x1080 image; an object of 7 free bytes in two fragments", outside="RLE data over 8 free bytes")
prop("C04", "PGS: the color of a pixel is the palette entry with its id",
     "The luminance and alpha of a pixel are those of the palette entry with the id of the pixel, whatever the order of the entries and the gaps between their ids; an id without entry is transparent. A palette whose size is not one of whole entries is refused. "
     "The conversion given by the caller is applied to that entry.",
     ["inputs"], "every palette with distinct ids, every pixel color", "The fixtures have contiguous palettes: position and id are the same in them.",
     [PG + "pds.rs", PG + "pgs_image.rs"], [("palette reading", PG + "pds.rs"), ("lookup of the entries", PG + "pgs_image.rs")],
     ["h_pgs_palette", "h_pgs_palette_l", "h_pgs_palette_x", "h_pgs_palette_full", "h_pgs_palette_size", "h_pgs_rle"], ["h_pgs_palette_xx"], "any 9 entries with distinct ids, any 4 pixels; any bytes of any size up to 23 as a palette; palettes of 1 to 2000 entries in three orders, any pixel; two types of subpixels", "any 14 entries with distinct ids, any 4 pixels",
     outside="larger palettes with other orders of ids; different entries with the same id")
prop("C05", "PGS: an object cut in two fragments is the whole object",
     "An image object carried by two segments, cut anywhere, gives the image of the same data in one segment, whatever lies between the fragments. "
     "When the bytes carried are not as many as the declared size, the object is refused with an error, never given with wrong contents, and so it is when the flags of its segments are not those of a whole object, or of a first then a last fragment.",
     ["inputs"], "every cut, every size, every data", "The fixtures have no fragmented object.", [PG + "ods.rs", PG + "decoder.rs"],
     [("ods::read", PG + "ods.rs"), ("incomplete objects", PG + "decoder.rs")],
     ["h_pgs_frag_l", "h_pgs_frag_sizes", "h_pgs_frag_flags", BIG("h_pgs_big")], ["h_pgs_frag_x"], "7 bytes of data cut at every place, any size and palette; every declared size (24 bits) for 0-3 bytes carried by each fragment; any flags in one or two segments; an object of 67 kB cut at 60 kB",
     "9 bytes of data cut at every place", outside="objects of more than 9 free bytes, more than two fragments (which the code refuses)")
prop("C06", "PGS: each subtitle has its own image, palette and times",
     "In a sequence of subtitles each item has the times, size and colors of its own segments only, both decoders give the same times in the same order, and the sequence ends with its last subtitle. "
     "A subtitle without image, or whose image has no palette, is an error that says so and never borrows the data of another one. When there are several, the palette of an image is the last one before it and after the previous image, and the last image is the one of the subtitle.",
     ["inputs", "histories"], "every sequence of subtitles with any stamps, sizes and colors, with or without palette and image", "The tests read single-subtitle files.",
     [PG + "decoder.rs", PG + "sup.rs"], [("state kept between segments", PG + "decoder.rs"), ("SupParser::next", PG + "sup.rs")],
     ["h_pgs_seq_l", "h_pgs_repeat", "h_pgs_bufreader", BIG("h_pgs_many"), BIG("h_pgs_many_segs"), "h_pgs_repeat_l"], ["h_pgs_seq_x"], "a subtitle of any five palettes, images and other segments in any order, its first end segment anywhere; three subtitles with free stamps, sizes and palette entry, each with or without palette and image, skipped segments of 0-3 free bytes; 300 subtitles with at 8 places one that has no image; a subtitle after up to 300 palettes, images or other segments, or with these between its fragments", "four subtitles",
     outside="longer sequences")
prop("C07", "PGS: the result does not depend on how the reader gives the bytes",
     "Reading the same PGS data through a reader that gives any number of bytes at a time, through any buffer, or from a file gives the same subtitles, errors and pixels as reading them from memory. A missing file is an error.",
     ["inputs", "schedules"], "every way of cutting the reads, every contents", "The tests read files through one kind of reader with one buffer size.",
     [PG + "segment.rs", PG + "sup.rs", PG + "ods.rs", PG + "pds.rs"], [("reads and seeks of the segments", PG + "segment.rs"), ("SupParser::from_file", PG + "sup.rs")],
     ["h_pgs_chunks", "h_pgs_chunks_free", "h_pgs_bufreader", "h_pgs_chunks_any_l", "h_pgs_file", "h_pgs_skip"], ["h_pgs_chunks_any_x", "h_pgs_chunks_free_l"],
     "a subtitle with skipped segments, a palette and an object of 3 free bytes in two fragments, complete or cut by up to 30 bytes, read 1 to 20 bytes at a time, or two sizes in turn, or the first 6 pieces of any of three sizes each, or through buffers of 1 to 64 bytes; any 42-byte stream read 1 to 15 bytes at a time; any data skipped and read through the functions that read the segments, with any counts",
     "any 52-byte stream read 1 to 15 bytes at a time; the first 9 pieces of any of three sizes each", outside="readers whose pieces after the ninth have sizes of their own")
prop("C08", "PGS: a failing reader is reported, nothing is made up",
     "When the reader fails at any point, the item being read is an error, and no subtitle is given from the data read before the failure nor is the failure taken for the end of the stream; the items before it are not affected. "
     "An interrupted read behind a buffer is retried, not a failure. All this is so with a closed standard output too, and each error has a text and causes that end.",
     ["fault_sequences", "inputs"], "every operation of the reader failing, with any contents", "No test uses a failing reader.",
     [PG + "segment.rs", PG + "decoder.rs"], [("errors of the reads", PG + "segment.rs"), ("propagation", PG + "decoder.rs")],
     ["h_pgs_fault", "h_pgs_interrupted", "h_pgs_skip", "h_pgs_fault_out"], [], "each of the first 25 operations (read, buffer fill, seek) of the reader failing with any of 36 kinds of errors (not the one that stands for the end of the data), both decoders; a stream of 7 segments",
     outside="several failures in a row")
prop("C09", "PGS: generated images show the pixels of the subtitle",
     "The image generated from a PGS subtitle has its size, and each pixel is the conversion of the subtitle's pixel at the same place; the image for OCR has the same contents inside a border of the chosen width and background color.",
     ["inputs"], "every size, pixel, border and color", "The tests compare one image with none of the options changed.", [PG + "pgs_image.rs"],
     [("RleToImage::to_image", PG + "pgs_image.rs"), ("RleToImage::image", PG + "pgs_image.rs")],
     ["h_pgs_image_l", BIG("h_pgs_big"), BIG("h_pgs_big_l")], ["h_pgs_image_x", BIG("h_pgs_big_x")], "sizes 0x0 to 3x3, missing or excess data, any palette entry and colors, borders 0 to 3; a 700x100, a 260x256 and a 1920x200 image with free palette colors, border 3", "sizes 0x0 to 4x4, borders 0 to 4; a 1920x1080 image", outside="bigger images and borders")

# ------------------------------------------------------------------ VobSub
VB = "src/vobsub/"
prop("C10", "VobSub: any .sub bytes give exactly what the format says, no panic",
     "Whatever the bytes of a .sub file, iterating its subtitles never panics and ends; it gives, in order, the subtitles and errors that a direct reading of the format gives, and nothing after the end.",
     ["inputs"], "every file contents", "The tests read two files and a few fuzzer seeds for which they only check that nothing panics.",
     [VB + "sub.rs", VB + "mpeg2/ps.rs", VB + "mpeg2/pes.rs", VB + "img.rs"], [("VobsubParser::next", VB + "sub.rs"), ("packet search", VB + "mpeg2/ps.rs"), ("PES packets", VB + "mpeg2/pes.rs"), ("subtitle packet", VB + "sub.rs")],
     ["h_vob_any_l", "h_vob_any_pack", "h_vob_any_packet", "h_vob_offsets", "h_vob_near", "h_vob_stamps", "h_vob_times", "h_vob_area", "h_vob_skip", "h_vob_row_l", "h_vob_cut", "h_vob_rle", "h_vob_rle_run"], ["h_vob_any_x", "h_vob_any_pack_l", "h_vob_any_packet_l", "h_vob_near_l"],
     "any 26-byte file; any 23 bytes after a pack start code; any subtitle packet of 9 bytes; a subtitle of three control sequences with any offsets; the file of a subtitle in two packets with any 2 adjacent bytes free, at every place; what C11, C13, C15, C16 and C17 list",
     "any 30-byte file; any 3 adjacent bytes of the file of a subtitle; any 26 bytes after a pack start code; any subtitle packet of 12 bytes", outside="longer files with free contents everywhere")
prop("C11", "VobSub: subtitle times are its stamp plus its control dates",
     "A subtitle starts at its 33-bit time stamp (90 kHz) plus the date of its start command (hundredths of second) and ends at the stamp plus the date of its stop command, or 5 seconds after its start when there is none; times are right to the millisecond. "
     "The time stamp is read whatever the stuffing, the flags, the optional fields and the decoding stamp around it.",
     ["inputs"], "every stamp and date", "The tests check two times to a tenth of second.", [VB + "sub.rs", VB + "mpeg2/pes.rs", VB + "mpeg2/clock.rs", VB + "decoder.rs"],
     [("dates of the control sequences", VB + "sub.rs"), ("time stamps", VB + "mpeg2/pes.rs"), ("conversion", VB + "decoder.rs")],
     ["h_vob_times", "h_vob_stamps"], [], "every 33-bit stamp and every pair of 16-bit dates, start and stop in the same or different control sequences; every pack header, 0-7 stuffing bytes, 0-3 extra header bytes, with or without decoding stamp",
     outside="rounding below the millisecond (a difference of 1 ms is accepted)")
prop("C12", "VobSub: a subtitle split over packets is the whole subtitle",
     "A subtitle whose packet is split over several PES packets, anywhere, with packets of other streams between them, gives the subtitle of the unsplit packet with the time of its first part.",
     ["inputs"], "every split, every other packet", "One fixture has one split subtitle.", [VB + "sub.rs", VB + "mpeg2/ps.rs"], [("next_sub_packet", VB + "sub.rs")],
     ["h_vob_split_l", BIG("h_vob_big"), BIG("h_vob_big_l"), BIG("h_vob_many_parts")], [], "two or three parts cut at every place, with free palette, alpha, image line, substream and times, with or without a packet of another substream between them; a packet of 7 kB in parts of 700 bytes and one in parts of 2000 bytes; the packet of a 1920x1080 image in parts of 2010 bytes; one in parts of 1, 2 or 7 bytes with up to 20 packets of another substream between them",
     outside="more free parts")
prop("C13", "VobSub: foreign bytes and damaged packs around subtitles are skipped",
     "Bytes that are not part of a pack, packs of other kinds, packs without packet and damaged headers are skipped: the subtitles before and after them are given, unchanged.",
     ["inputs"], "every foreign bytes without start code, every other packet", "The fixtures have no damage.", [VB + "mpeg2/ps.rs", VB + "mpeg2/pes.rs"], [("search of the next pack", VB + "mpeg2/ps.rs")],
     ["h_vob_garbage_l", "h_vob_skip", "h_vob_near", "h_vob_near_l", "h_vob_garbage_xx", BIG("h_vob_many_other")], ["h_vob_garbage_xxx"], "24 free bytes before, after and between two subtitles; one pack of another kind, empty, MPEG-1, or with wrong header size before a subtitle; the file of a subtitle in two packets with any 3 adjacent bytes free; up to 300 times five kinds of other data (75 kB)", "60 free bytes",
     outside="foreign bytes that hold a start code")
prop("C14", "VobSub: control sequences give the subtitle its attributes",
     "The commands of all the control sequences of a subtitle set its times, palette, alpha, area and image offsets, whatever their order and grouping: for a repeated command the first one counts, save for the image offsets where the last one does. "
     "When one of them is missing the subtitle is an error that names what is missing.",
     ["inputs", "programs"], "every sequence of commands with any arguments", "The tests parse two real control sequences.", [VB + "sub.rs"], [("control commands", VB + "sub.rs"), ("subtitle", VB + "sub.rs")],
     ["h_vob_control_l", "h_vob_parts", BIG("h_vob_many_cmds")], ["h_vob_parts_l"], "a complete set with any two commands before and after it, in one to three sequences; every sequence of five commands with free arguments; up to 300 commands in a sequence, or 300 sequences",
     "every sequence of six commands", outside="longer sequences")
prop("C15", "VobSub: area, palette and alpha are those of the packet",
     "The area, the four palette indices and the four alphas of an image are those of its commands, the last value for color 0; an area with no width or height is an error. "
     "Sizes are those of the rectangle with its edges included, and no rectangle that can be displayed is refused.",
     ["inputs"], "every coordinates, palette and alpha", "The tests check two areas.", [VB + "sub.rs", "src/content/area.rs"], [("area, palette_entries", VB + "sub.rs"), ("Area::try_from", "src/content/area.rs")],
     ["h_vob_area", "h_img_area"], [], "every 12-bit coordinates, palette and alpha in a packet; every 16-bit rectangle", outside="in packets, images larger than 4x2 once the area is accepted")
prop("C16", "VobSub: an image has the pixels its two interlaced fields encode",
     "The pixels of a VobSub image are those encoded by its two fields, even lines from the first and odd lines from the second, each line starting at a byte: width x height values below 4. "
     "Data that go past the end of a line are an error, not a wrong image nor a panic.",
     ["inputs"], "every image data, field offsets and sizes", "The tests decode the images of two files and compare none of their pixels.", [VB + "img.rs"], [("decompress, scan_line", VB + "img.rs")],
     ["h_vob_rle", "h_vob_rle_run", BIG("h_vob_big"), BIG("h_vob_big_l")], ["h_vob_rle_l"], "sizes 2x2 to 3x3, any 3 bytes of data, any second field; one code of any length (up to the 255 of 16 bits) and the next one in a line of its width; a 720x200, a 301x301 and a 1920x1080 image with codes of all lengths and five free colors",
     "sizes 2x2 to 4x4, any 5 bytes of data", outside="what a code word cut by the end of the data gives")
prop("C17", "VobSub: a damaged subtitle does not change the others",
     "In a sequence of subtitles each damaged one is an error in its place and the others are given unchanged; a file cut anywhere gives the complete subtitles before the cut and no other. After its end the iterator stays at its end, and reading the same data again gives the same items.",
     ["inputs", "crash_points", "histories"], "every sequence of good and damaged subtitles, every cut", "No test reads a damaged or cut file with subtitles before and after.", [VB + "sub.rs", VB + "mpeg2/ps.rs"],
     [("VobsubParser::next", VB + "sub.rs"), ("PesPackets::next", VB + "mpeg2/ps.rs")],
     ["h_vob_row_l", "h_vob_cut", "h_vob_open", BIG("h_vob_many"), "h_vob_row_x"], ["h_vob_row_xx"], "four subtitles with free contents, each intact, followed by bytes, without stamp, without size or with a wrong offset; a file of two subtitles, one in two parts, cut at every byte; 300 subtitles with at 8 places a damaged one", "five subtitles",
     outside="longer sequences; a subtitle whose last packets are missing while others follow (the next packet of its substream is taken as its continuation: nothing in the format tells it is not)")
prop("C18", "VobSub: invalid offsets and commands are refused with their error",
     "A subtitle packet whose control or image offsets lead outside of it, backwards or in the wrong order, or whose control sequence is not complete, is refused with the error that names the fault.",
     ["inputs"], "every offset, every packet", "No test reads an invalid packet.", [VB + "sub.rs", VB + "img.rs"], [("control offsets", VB + "sub.rs"), ("VobSubRleImageData::new", VB + "img.rs")],
     ["h_vob_offsets", "h_vob_any_packet", "h_vob_near"], ["h_vob_any_packet_l"], "three control sequences with one free offset and, or not, free image offsets; any subtitle packet of 9 bytes", "any subtitle packet of 12 bytes", outside="longer free packets")
prop("C19", "VobSub: generated images show the colors of the pixels",
     "The image generated from a VobSub subtitle has its size and, at each place, the conversion of the palette color and the alpha selected by the pixel; in the image for OCR a pixel is text when its alpha and its luminance are not zero, "
     "background otherwise and in the border.",
     ["inputs"], "every pixel, palette, alpha, color and border", "No test looks at the pixels of a generated image.", [VB + "img.rs", "src/image/mod.rs"], [("VobSubToImage::to_image", VB + "img.rs"), ("VobSubOcrImage::image", VB + "img.rs")],
     ["h_img_vob_l", "h_img_ocr_l", "h_img_opt", "h_img_ocr_xx", BIG("h_img_big")], ["h_img_vob_x"], "images 2x2 to 4x4 (OCR: 8x7, borders 0 to 4) with free pixels, palettes, alphas, colors and place; 700x100 and 3x300 images with free colors and alphas, borders of 5 and 300", "images up to 6x5", outside="bigger images")
prop("C20", "VobSub: the palette text is 16 hexadecimal colors",
     "A palette text is read exactly when it is 16 colors of six hexadecimal digits of any case separated by a comma and a space, and gives their values in order; what follows it is left. Any other text is an error, never a panic nor a wrong color.",
     ["inputs"], "every text around a valid palette", "One palette is parsed by the tests.", [VB + "palette.rs"], [("palette, hex_rgb", VB + "palette.rs")],
     ["h_idx_palette", "h_idx_palette_l", "h_idx_palette_end"], ["h_idx_palette_x"], "a palette with any 2 adjacent bytes free, at every place, or any 6, at every 8th place; a palette cut anywhere or followed by 0-3 free bytes and, or not, a 17th color", "any 9 adjacent bytes free, at every 8th place",
     outside="texts that differ from a palette in distant places")
prop("C21", "VobSub: the index gives its palette and its language",
     "An .idx text gives the palette and the language of its lines with these keys, the last ones when they are repeated, and the default palette or no language when there are none; other lines, comments and spaces at the ends of lines are ignored. A wrong palette is an error; a wrong language is no language.",
     ["inputs", "programs"], "every text of the lines", "The tests read two index files.", [VB + "idx.rs", VB + "palette.rs"], [("Index::read_index", VB + "idx.rs"), ("Lang::try_from", VB + "idx.rs")],
     rx("h_idx_lang", "h_idx_lang_l", "h_idx_lang_len", "h_idx_palette_line", "h_idx_order_l", "h_idx_any", "h_idx_init", "h_idx_long", "h_idx_many"), rx("h_idx_lang_len_l", "h_idx_palette_line_l", "h_idx_any_l", "h_idx_long_l"),
     "an index with any 2 adjacent ASCII bytes free in its palette key, start or end, or any 4 in its language line; one with a language of 1 to 8 letters, an index of 0 to 4 digits and any ASCII byte free; every sequence of 0 to 4 lines of 8 kinds with 3 line ends; lines of more than 118 and 300 bytes with one free byte; up to 900 lines around the palette and the language; every text of up to 4 bytes (any bytes)",
     "3 adjacent bytes in the palette line; lines of up to 4000 bytes; every text of up to 7 bytes", outside="free bytes in distant places; non-ASCII bytes inside longer lines")
prop("C22", "VobSub: reading an index reports every failure of its reader",
     "The index read does not depend on how the reader gives its bytes nor on the buffer; a failure of the reader at any point, and bytes that are not UTF-8, are an error made by the caller's function, never a partial index; an interrupted read is retried. A file gives what its bytes give, and a missing one an error with its path.",
     ["fault_sequences", "schedules", "inputs"], "every failing operation, every way of cutting the reads", "The tests read two complete files.", [VB + "idx.rs"], [("Index::read_index", VB + "idx.rs"), ("Index::open", VB + "idx.rs")],
     rx("h_idx_reader_l", "h_idx_any", "h_idx_open", "h_idx_nofile"), rx("h_idx_any_l"), "a reader giving 1 to 1000 bytes at a time, through buffers of 1 to 8192 bytes, failing at any of its first 201 operations or never, with any of 38 kinds of errors; any text of up to 4 bytes",
     "any text of up to 7 bytes", outside="several failures")
prop("C23", "VobSub: files are recognised by their first bytes",
     "A file is recognised as an index exactly when it starts with the index mark, and as subtitle data exactly when it starts with a pack start code, whatever follows; a file shorter than the mark is never recognised, and one that cannot be read is an error with its path.",
     ["inputs"], "every file contents", "Two files are probed by the tests.", [VB + "probe.rs"], [("has_magic", VB + "probe.rs")],
     ["h_idx_probe", "h_idx_probe_l", "h_idx_nofile"], [], "every file of 0 to 24 bytes; every file of 600 bytes", outside="read failures after the opening")

# ------------------------------------------------------------------ text
TX = "src/time/time_point.rs"
prop("C24", "Times are written with all their digits, exactly",
     "The text of a time is [-]HH:MM:SS and three digits of milliseconds after the separator of the format (comma for SubRip, point for WebVTT, colon for VobSub index), with hours as long as needed, and reads back as the same time to the millisecond.",
     ["inputs"], "every time", "A few times are formatted by the tests.", [TX, "src/srt.rs", "src/webvtt.rs", VB + "idx.rs"], [("fmt_separator", TX)],
     ["h_text_srt_time", "h_text_vtt_time", "h_text_idx_time", "h_text_hours", "h_text_extremes"], ["h_text_srt_time_l", "h_text_vtt_time_l", "h_text_idx_time_l"], "every time under 149 hours (29 bits) in absolute value; three seconds of 22 hours from the 99th to the last; the extreme times", "every 64-bit time")
prop("C25", "SubRip files hold every subtitle, numbered, in order, verbatim",
     "A SubRip text holds, for each subtitle in order, its number counted from 1, its two times, its text unchanged and an empty line, and nothing else.",
     ["inputs", "programs"], "every list of subtitles, every text, time and number", "One list is written by the tests.", ["src/srt.rs"], [("write_srt, write_line", "src/srt.rs")],
     ["h_text_srt_l", "h_text_line", "h_text_number_l", "h_text_line_times", BIG("h_text_many"), BIG("h_text_last")], [BIG("h_text_many_l"), "h_text_srt_x"], "0 to 3 subtitles with texts of 0 to 3 free ASCII characters (one line: 0 to 5) and, or not, other ones; 300 subtitles with one free text; the end of 65540 subtitles; every 64-bit number; times from 0 to 74 hours (28 bits)", "0 to 4 subtitles with texts of 0 to 4 characters; 70000 subtitles",
     outside="longer lists and texts")
prop("C26", "WebVTT cues hold their times and their text, verbatim",
     "A WebVTT cue is its two times, its text unchanged and an empty line, and nothing else.",
     ["inputs"], "every text and time", "One cue is written by the tests.", ["src/webvtt.rs"], [("write_line", "src/webvtt.rs")], ["h_text_vtt", "h_text_line_times"], [],
     "texts of 0 to 4 free ASCII characters and, or not, other ones; times from 0 to 74 hours (28 bits)", outside="longer texts")
prop("C27", "Writing subtitles never loses text silently",
     "A writer that takes its bytes by pieces receives the same text as one that takes all at once; when it fails, the failure is returned, what was written before is a prefix of the text and nothing is written after. A full writer is an error.",
     ["fault_sequences", "schedules"], "every failing operation and piece size", "The tests write to memory.", ["src/srt.rs", "src/webvtt.rs"], [("write_line", "src/srt.rs"), ("write_line", "src/webvtt.rs")],
     ["h_text_writer", "h_text_full"], [], "pieces of 1, 2, 5 bytes or all, a failure at any of the first 41 writes or none, of any of 38 kinds; writers of 0 to 40 bytes", outside="several failures")
prop("C28", "Times keep their milliseconds, their order and their sign",
     "A time made from milliseconds has them and is ordered, compared and negated as they are; its seconds give it back within a millisecond; a span keeps its start and end.",
     ["inputs"], "every pair of times", "A few values are checked.", [TX, "src/time/time_span.rs"], [("TimePoint", TX), ("TimeSpan", "src/time/time_span.rs")],
     ["h_text_point", "h_text_secs", "h_text_from_secs"], [], "every pair of 64-bit times; seconds of every time below 2^42 milliseconds (139 years), and every number of 1024ths of second below 2^42, within a millisecond",
     outside="other numbers of seconds; the opposite of the lowest time")
prop("C29", "Thresholds and luminance are applied to each pixel alike",
     "The two ways of thresholding a pixel give black exactly when its alpha and its luminance reach the thresholds, white otherwise; the luminance of each palette color is its Rec. 709 weighting, at its own index.",
     ["inputs"], "every pixel, threshold and color", "No test covers them.", ["src/image/pixels.rs", VB + "palette.rs"], [("luma_a_to_luma", "src/image/pixels.rs"), ("palette_rgb_to_luminance", VB + "palette.rs")],
     ["h_img_threshold", "h_img_luminance"], [], "every 8 and 16-bit and single precision pixel and threshold (7 pairs of constants for the form with constant thresholds); every color at each index",
     outside="other pixel types; other constant thresholds")

prop("C30", "Dumping images writes each whole in its numbered file, or says what failed",
     "Dumping images in a folder makes the folder when it is missing (and its parents), and writes one PNG file per image, NNNNNN.png by its rank from 0, which decodes to the image; what was in these files is replaced, other files are left alone. "
     "When the folder cannot be made or a file cannot be written (a folder has its name, the device is full, the image is empty), the error names it and keeps its cause, and the files of the images before it are whole.",
     ["inputs", "faults"], "every series of images, every state of the folder, a failure at any image", "No test dumps an image; a full device cannot be met in a unit test.",
     ["src/image/utils.rs"], [("dump_images", "src/image/utils.rs"), ("dump_image", "src/image/utils.rs")],
     ["h_dump_luma", "h_dump_luma_a", "h_dump_rgba", "h_dump_free", "h_dump_kinds", BIG("h_dump_many")], ["h_dump_free_l"],
     "up to 3 images of 3 sizes and 1, 2 or 4 channels (fixed contents, or one image with any first byte), in 8 states of the folder (there, with files, missing with up to 3 parents, a file, in a file), "
     "with none or any one image that cannot be written in 3 ways; images of 16 bits with one free pixel; 300x7 and 2x260 images; 9, 10, 11 and 101 images", "one image with any two first bytes",
     outside="other contents (the encoding is the image crate's), other failures of the file system, more than 101 images, relative paths",
     assumptions=["The file system is a model in the executor: open, read, write, mkdir, stat, unlink and rename on absolute paths, with the error codes of Linux."])

prop("C31", "The log and the error texts change nothing and never panic",
     "With all the messages of the log written, to any logger, and every error written with its causes, reading a file gives what it gives without: the same subtitles, the same errors, no panic. Each error has a text, and so has each of its causes, which end.",
     ["inputs", "configurations"], "every file, with a logger that writes all that it is given", "The tests install no logger: the messages are never formatted, and no text of an error is asked.",
     [VB + "sub.rs", VB + "img.rs", VB + "mpeg2/ps.rs", "src/util.rs", PG + "segment.rs"], [("messages of the reading", VB + "sub.rs"), ("BytesFormatter", "src/util.rs"), ("messages of the images", VB + "img.rs"), ("message of the segments", PG + "segment.rs")],
     rx("h_log_near", "h_log_split", "h_log_skip", "h_log_packet", "h_log_lengths", "h_log_rle", "h_log_idx", "h_log_palette") + ["h_dump_luma", "h_pgs_fault_out"], rx("h_log_near_l", "h_log_rle_l"),
     "the file of a subtitle in two packets with any byte free, at every place; two parts cut at every place; four kinds of damaged packs; any subtitle packet of 7 bytes; images of 2x2 with any 2 bytes of data, or with 0 to 40 bytes in excess and 0 to 20 bytes after the packet; an index with free bytes; a palette text with free bytes; "
     "dumped images that cannot be written; a PGS reader that fails at any operation with any error",
     "any 2 adjacent bytes of the file; images of up to 3x3 with any 3 bytes of data", outside="messages of other crates; the clock of the pack headers (fixed here); what the messages say")

prop("C32", "Reading asks for no more memory than its format can hold",
     "Whatever sizes a few bytes of file announce, reading them never makes one request for more memory than the largest object of the format: 16 MiB for a PGS object (24-bit size) or a VobSub image (4096 by 4096), "
     "64 KiB for the times of a PGS stream. Iterating over the pixels of a PGS image, even one of 65535 by 65535, asks for none.",
     ["inputs"], "every announced size, of packets, segments, objects, images and areas", "A test measures no memory, and its files announce what they hold.",
     [PG + "ods.rs", PG + "pds.rs", PG + "segment.rs", VB + "sub.rs", VB + "img.rs"], [("buffers of the objects", PG + "ods.rs"), ("buffer of the palettes", PG + "pds.rs"), ("buffer of the packets", VB + "sub.rs"), ("image", VB + "img.rs")],
     ["h_mem_pgs", "h_mem_vob"], [],
     "a segment of any kind and size, a palette of any size, an object of any sizes (segment, data, width, height), and two fragments of any sizes, each with 3 to 14 bytes of contents; a subtitle packet of any announced size, or with any width (or height) of image, or one of 4096x4096",
     outside="the sum of several requests; the images asked by the caller (to_image), which hold all their pixels")

NOT_APPLICABLE = {}


prop("C33", "Opening: what cannot be read is an error with its path; large files are whole",
     "Opening a path that leads to no file that can be read (nothing there, no folder above it, a file in place of this folder, a folder in place of the file, an impossible name) is an error "
     "that holds the path as it was given, whatever its bytes, and its cause, for each function that opens a file, and makes nothing there; a folder that the system opens is an error of the first reading. "
     "A file larger than any buffer of its reader is read whole: it gives what its bytes give.",
     ["inputs", "faults"], "every fault of a path, with any name, for each of the functions that open; files whose parts fall on the edges of the buffers",
     "Tests open three small files that are there.",
     ["src/pgs/sup.rs", "src/pgs/mod.rs", "src/vobsub/sub.rs", "src/vobsub/idx.rs", "src/vobsub/probe.rs"],
     [("SupParser::from_file", "src/pgs/sup.rs"), ("Sub::open", "src/vobsub/sub.rs"), ("Index::open", "src/vobsub/idx.rs"), ("has_magic", "src/vobsub/probe.rs")],
     ["h_open_faults", "h_open_sup", "h_open_sub"] + rx("h_open_idx"), [],
     bounds="six faults of a path with any byte in its name; .sup files of 20 to 130 kB with segments to skip and objects across the buffer's edge, any times and colors; .sub files of 300 bytes to 105 kB with any palette and alpha; .idx files of 8 to 9 kB with the palette line across the edge",
     outside="files without permission (the checks run as root); other sizes")

prop("C34", "Readings and writings do not depend on those before them or beside them",
     "What a parser gives, what a reading gives and what a writing makes depend on their own input alone: not on what was read, written or decoded before in the process, with success or not, "
     "nor on the readers, the iterators of pixels and the writings that are open at the same time and called in turn.",
     ["inputs", "histories"], "every content of the two inputs, failing ones included, every place where the calls of one fall between those of the other",
     "Tests read each file once, from a fresh state.",
     ["src/pgs/sup.rs", "src/pgs/decoder.rs", "src/pgs/pgs_image.rs", "src/vobsub/sub.rs", "src/vobsub/idx.rs", "src/vobsub/img.rs", "src/srt.rs", "src/image/utils.rs"],
     [("SupParser::next", "src/pgs/sup.rs"), ("Index::read", "src/vobsub/idx.rs"), ("write_srt", "src/srt.rs"), ("dump_images", "src/image/utils.rs")],
     ["h_hist_pgs", "h_hist_pgs_cut", "h_hist_vob", "h_hist_vob_cut", "h_hist_srt", "h_hist_img", "h_hist_img_pgs", "h_hist_dump"] + rx("h_hist_idx"), [],
     bounds="two inputs at a time: two .sup streams of two subtitles, two .sub files of two subtitles, two .idx texts, two lists of .srt lines, two images of a few pixels with their own palettes, two folders of images; any colors, times, pixels; a stream, a file, an index, a writing or a dump that fails or is cut at any place, then one without one of its parts",
     outside="threads; longer histories")


# What each property is decided against (a table of DESIGN.md).
ORACLE = {
    "C01": "no panic, failed check, out-of-object access; loops bounded by the bytes; the end stays the end",
    "C02": "a byte-level reading of the segment chain written in the harness (13-byte headers, kinds, sizes, cut streams), call by call",
    "C03": "an independent run-length decoder of the harness, pixel by pixel; symbolic run lengths at chosen positions for large images",
    "C04": "a lookup by id in the entries drawn by the harness",
    "C05": "the image of the same bytes in one segment; declared and carried sizes compared arithmetically",
    "C06": "each subtitle read alone from its own segments; the two decoders against each other",
    "C07": "the same bytes read from memory, against readers giving symbolic piece sizes, buffers of several sizes, seeks",
    "C08": "a reader that fails at a symbolic operation with any kind of error: the items before it are those of the whole stream, then an error",
    "C09": "the pixels of the iterator, place by place; the border from the options",
    "C10": "a direct reading of program stream, PES and subtitle packet in the harness: subtitles, errors (by variant) and end in the same order",
    "C11": "exact integer arithmetic on the 33-bit stamp and the dates, to the millisecond",
    "C12": "the subtitle of the same packet in one PES packet",
    "C13": "the subtitles of the same stream without the foreign bytes",
    "C14": "the commands applied in the order of the harness's own list",
    "C15": "arithmetic on the fields put in the packet",
    "C16": "an independent decoder of the 2-bit interlaced run-length code",
    "C17": "each subtitle alone in its stream; damages and cuts at symbolic places",
    "C18": "the error variant of the harness's reading of the offsets, where several faults are possible any of them",
    "C19": "conversion of the palette entry of each pixel, place by place",
    "C20": "a character-level recogniser of palette texts",
    "C21": "a line-by-line reading of the index text without regular expressions",
    "C22": "the index of the same text in memory; readers in pieces, failing, interrupted; invalid UTF-8",
    "C23": "the first bytes compared in the harness",
    "C24": "the text parsed back to milliseconds, field by field",
    "C25": "the text composed in the harness",
    "C26": "the text composed in the harness",
    "C27": "the text written to memory: prefix, or whole",
    "C28": "integer arithmetic, and reals with error bounds for seconds",
    "C29": "the comparison and the weighting computed in the harness",
    "C30": "the files of the model file system (natively: of a scratch folder), decoded back by the `png` decoder and compared pixel by pixel",
    "C31": "the same reading without logger; every error formatted with its chain of sources",
    "C33": "the model file system (natively: a scratch folder): path and kind of the error; the contents put in the large files",
    "C34": "what each input gives alone (the same expectations of the harness), whatever was done before or is done in turn",
    "C32": "the largest request seen by the allocator (the executor's model; natively a counting allocator)",
}
assert set(ORACLE) == set(PROPS)
