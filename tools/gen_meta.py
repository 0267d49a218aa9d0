#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/decode.rs"; L = "src/lib.rs"; P = "src/prepare.rs"; T = "src/detect.rs"; G = "src/geometry.rs"
V = "src/version_db.rs"; I = "src/identify/grid.rs"; M = "src/identify/match_capstones.rs"; MO = "src/identify/mod.rs"
IMG = "the tests show a handful of fixed pictures"
GRID = "the tests decode about a dozen fixed grids"
props = [
("C01", "Every encodable symbol decodes to exactly what was encoded",
 "For every version 1-40, error correction level, mask and single numeric, alphanumeric or byte segment of any length up to capacity, decoding the modules of a standard QR symbol yields exactly the encoded bytes. The returned metadata are the version, level and mask the symbol was made with.",
 "all 1280 version/level/mask combinations x all modes, lengths and characters",
 GRID + " of versions 1-7 and a few masks; the space is astronomically larger",
 [D, V], [("read_data / reserved_cell / mask_bit", D), ("codestream_ecc", D), ("decode_numeric/alpha/byte", D), ("VERSION_DATA_BASE", V)],
 "PBT round trip: independent ISO 18004 encoder -> rqrr, all version/level/mask combinations swept"),
("C02", "Any sequence of segments decodes to the concatenation of their contents",
 "For every sequence of numeric, alphanumeric, byte, kanji and ECI segments that fits into a symbol, the decoded bytes are the contents of the segments in order: kanji as their Shift JIS bytes, ECI designators of one, two or three bytes contributing nothing. This also holds if the segments leave no room for a (full) terminator, and whatever the padding after the terminator is.",
 "all segment sequences, segment lengths, versions (count widths change at 10 and 27), fill levels and paddings",
 "tests contain one ECI symbol and otherwise single segments; the fill level and the mixture of modes are never varied",
 [D], [("decode_payload", D), ("decode_eci", D), ("decode_kanji", D), ("take_bits", D)],
 "PBT round trip with a grammar of segment sequences"),
("C03", "Correctable damage never changes the result",
 "If in every block of a symbol at most floor(e/2) of the codewords are wrong (e: error correction codewords of the block), wherever in the block and by whatever values, decoding yields exactly the encoded content and metadata. This holds for all 160 version/level combinations, including those with blocks of two sizes.",
 "all version/level combinations x error positions, counts up to the limit per block and error values",
 "two pictures with accidental damage; no test approaches the correction limit or varies error positions",
 [D, V], [("correct_block / berlekamp_massey / block_syndromes", D), ("codestream_ecc de-interleaving", D), ("ecc parameters", V)],
 "PBT: fault injection into codewords of reference-encoded symbols, up to the limit of every block"),
("C04", "Format information survives three bit errors, and either copy suffices",
 "Level and mask are read correctly whenever the first copy of the format information has at most three wrong bits, whatever the second copy contains; if the first copy is further than that from every valid word, they are read from the second copy as long as that one has at most three wrong bits. If neither copy is that close to a valid word the outcome is a format error, and no content or metadata are returned.",
 "all 32768 words in the first copy x states of the second copy x versions",
 "tests contain only intact format information",
 [D], [("read_format", D), ("correct_format / format_syndromes", D)],
 "exhaustive sweep of the first copy x PBT, against minimum-distance decoding"),
("C05", "Damage beyond correction is reported, never turned into wrong content",
 "For a symbol damaged in any way, the outcome is that of a reference decoder: if every block is within its correction capacity, the corresponding content; otherwise a data error, or a format error if the format information is unreadable. Content that differs from what was encoded is never delivered as success.",
 "all symbols x damage around and beyond the correction limit (codewords, module noise, blots, mixtures of two symbols), mirrored or not",
 "test_errors checks a few fixed broken pictures for an error",
 [D], [("correct_block final syndrome check", D), ("decode", D)],
 "differential PBT against an independent Reed-Solomon/bit-stream decoder"),
("C06", "Mirrored symbols decode like the originals",
 "A symbol whose modules are transposed (as seen in a mirror) decodes to the same content and metadata as the original, for every version, level and mask and with correctable damage to codewords and format information. The one exception are grids whose direct reading is valid as well.",
 "all version/level/mask combinations x contents x correctable damage",
 "one mirrored picture",
 [D, L], [("decode: second attempt", D), ("MirroredGrid", L)],
 "metamorphic PBT (transposition) over all version/level/mask combinations"),
("C07", "Raw data are the data modules in reading order, still masked",
 "For a grid with readable format information, the raw bit stream has exactly one bit per data module of that version (remainder included), in the standard's placement order, each equal to the module as it is in the grid, without mask removal or error correction; bits after the end are zero. The metadata returned with it are those of the format information.",
 "all versions, levels and masks x arbitrary module values",
 "one test looks at the raw data of one symbol",
 [D, V], [("get_raw", D), ("read_data", D), ("reserved_cell", D), ("apat", V)],
 "PBT: bit-for-bit comparison with the placement order of an independent model"),
("C08", "Only data and format modules influence the result",
 "Finder, separator, timing, alignment, dark and version modules, the format copy that is not needed, and the remainder bits may have any value: the decoded content and metadata stay the same.",
 "all versions/levels/masks x arbitrary values of all modules that carry no data",
 "no test overwrites function patterns",
 [D, V], [("reserved_cell", D), ("read_format", D), ("apat", V)],
 "metamorphic PBT: overwrite every function module"),
("C09", "Broken bit streams give the right error and only a sound prefix",
 "If the corrected bit stream has a mode that does not exist, or a segment or ECI designator that claims more than is left, decoding fails with the unknown-data-type or underflow error respectively. What was written until then contains every complete segment before the break and is a prefix of what the stream says; sound streams succeed, whatever follows their terminator.",
 "all bit streams: mixes of sound segments, unknown modes, excessive counts, cut-off headers and arbitrary bits, all versions",
 "no test has an error-free symbol with a malformed bit stream",
 [D], [("decode_payload", D), ("bits_remaining checks", D)],
 "grammar-based and random stream PBT against a reference stream reader"),
("C10", "Any grid is decoded or rejected: no panic, bounded work",
 "Decoding (bytes, text or raw data) any square grid of any size with any module values terminates with a result or an error, without panicking, asks only for modules inside of the grid and at most 64 times per module (plus a constant). Sizes below 21 or above 180 are always rejected as invalid version; the byte and the text interface agree; the result depends on the module values only.",
 "all grid sizes 0..400 x all module values",
 "tests use well-formed grids only",
 [D, L], [("read_format size check", D), ("Version::from_size", D), ("Grid::decode*", L)],
 "PBT/fuzzing of module matrices with an instrumented grid type (bounds and access counts checked)"),
("C11", "Content reaches the writer completely and in order, failures surface",
 "Decoding into a writer delivers exactly the content, in order, also if the writer takes only part of what it is given at a time or is interrupted. If the writer fails (or accepts nothing more) before everything is written, decoding returns the I/O error, and the writer has got exactly the part of the content before the failure.",
 "all contents x writer behaviours x failure positions",
 "tests only decode to vectors and strings",
 [D], [("write_all in decode_*", D)],
 "fault-injection PBT: writers with short writes, interruptions and failures at every byte"),
("C12", "The text interface returns valid UTF-8 or an encoding error",
 "If the content is valid UTF-8, also with characters split over segments, the text interface returns it unchanged along with the metadata. Otherwise it fails with the encoding error, never with altered text; the byte interface delivers the bytes in either case.",
 "all byte contents: texts of all UTF-8 lengths, broken in any place",
 "tests decode ASCII contents",
 [L], [("Grid::decode", L)],
 "PBT over texts and broken texts"),
("C13", "Any image is searched without panicking",
 "Preparing, searching and decoding an image of any size (empty included) with any pixel values never panics, from greyscale as well as from a bitmap. Every grid reported has a size that QR codes have (21, 25, ... 177).",
 "all images",
 IMG + " and few of them are hostile",
 [T, I, G, M, P], [("capstones_from_image", T), ("SkewedGridLocation::from_group", I), ("Perspective", G), ("get_region/flood_fill", P)],
 "fuzzing with adversarial scene generators (warped finder-like shapes, noise, stripes, strong perspective)"),
("C14", "The work of a search is bounded by the size of the image",
 "The number of pixel accesses of binarising an image is at most a constant per pixel; so is that of a search if at most 250 dark regions are in the image and fewer than three shapes resemble a finder pattern. Each way to combine three such shapes adds at most a constant per pixel and a constant. With more regions, each place where a line crosses dark and light in finder proportions adds at most a constant per pixel of the largest region.",
 "all images, in particular those with degenerate finder-like shapes",
 "no test measures work; pathological shapes do not occur in the test pictures",
 [I, P, M], [("find_alignment_pattern spiral", I), ("timing_scan", I), ("find_groupings", P), ("flood_fill", P)],
 "fuzzing with an access-counting image type; limit enforced per case"),
("C15", "Cleanly drawn codes are found and read",
 "A symbol of any version (with at most correctable codeword errors) drawn axis-aligned with 2 or more pixels per module (up to twice as many in one direction as in the other), in any of the 8 orientations (turned or mirrored), at any place and with or without quiet zone, yields exactly one grid, whose modules are exactly the symbol's and which decodes to its content. Images in which something else resembles a finder pattern are excepted.",
 "all symbols x scales (up to codes of 2400 px) x orientations x positions",
 IMG + " of a few small symbols",
 [T, I, M, P, G], [("capstones_from_image", T), ("find_groupings", P), ("from_group / jiggle_perspective", I), ("line_intersect", G)],
 "end-to-end PBT: reference encoder -> rasteriser -> detector -> decoder"),
("C16", "Codes seen at an angle are found and read",
 "Symbols of version 2-6 with at least 12 pixels per module, rotated by any angle, mirrored or not, with stretch and shear up to 12 % and mild perspective (up to 10 % change of scale from the centre to the border) yield exactly one grid that decodes to their content. Seven out of eight random views are read with 8 or more pixels per module for version 1 (three out of four with 5 or more), 4 or more for versions 2-5 (6 or more in noisy, unevenly lit photographs), 8 or more with strong perspective (30 %) or shear (50 %), 10 or more for versions 7-12 and 12 or more for versions 13-20.",
 "all symbols x rotation angles x affine and perspective distortions x positions",
 IMG + " at a few angles",
 [T, I, M, G], [("find_leftmost_to_line / corner finding", T), ("find_and_rank_possible_neighbors", M), ("find_alignment_pattern / jiggle_perspective", I), ("Perspective", G)],
 "end-to-end PBT over projective views"),
("C17", "Codes are read independent of exposure",
 "In greyscale images in which a light area of any brightness from 60 to 255 carries a symbol with dark modules at most half as bright, with a quiet zone of 4 or more modules, illumination falling off across the image by up to half and noise up to 3 %, the code filling the picture or being part of a larger one, exactly one grid is found and decodes to the content.",
 "all symbols x brightness x contrast x illumination gradients x noise",
 IMG + " with mostly ideal contrast",
 [P], [("prepare: adaptive threshold", P)],
 "end-to-end PBT over lighting conditions"),
("C18", "Several codes in one image are kept apart",
 "If an image shows several codes, everything read is one of them, none is read twice, no finder pattern belongs to two grids, and there are no more grids than codes. If no three finder patterns of different codes lie like those of one code, all codes are read.",
 "all combinations of symbols, sizes, orientations and layouts (2-14 scattered, up to 16 in a row, up to 6x6 in rows and columns)",
 "few test pictures show more than one code, in fixed layouts",
 [P, M, MO], [("find_groupings / used_capstones", P), ("find_possible_neighbors", M)],
 "end-to-end PBT over multi-code layouts"),
("C19", "Clutter around a code does not keep it from being read",
 "In greyscale pictures and bitmaps a code with a clear margin of 7 modules is found (exactly one grid) and read, however many other dark regions (hundreds or thousands of bars with the proportions of a finder's cross-section, large shapes) the image contains, provided that none of them resembles a finder pattern.",
 "all symbols x amounts and shapes of clutter, below and beyond the 251 regions remembered at a time",
 IMG + "; none has more regions than the region cache holds by design",
 [P, T], [("get_region: LRU of 251 regions", P), ("is_capstone", T)],
 "end-to-end PBT with generated clutter"),
("C20", "Reported bounds are where the code is",
 "For a code that is read, the four bounds are the corners of the symbol in image coordinates in the order top-left, top-right, bottom-right, bottom-left of the grid as reported, within 15 % of a module and 1.5 pixels for axis-aligned codes and three quarters of a module for codes at an angle (version 2-16, 12 or more pixels per module, mild perspective).",
 "all symbols x scales x orientations x positions x views",
 "no test looks at the bounds",
 [P, G, I], [("detect_grids: bounds", P), ("Perspective::map", G)],
 "end-to-end PBT: painted corners as oracle"),
("C21", "All ways of giving an image are equivalent and searches are repeatable",
 "The same picture given as image buffer, as an image type of the caller, as greyscale function, or (once binarised) as bitmap function or prepared buffer yields the same pixels, grids, bounds and contents, every time. Clones of a prepared image are independent of the original; a further search of the same prepared image finds none of the codes again; a detected grid decodes like a copy of its modules.",
 "all images x entry points x order of clone and search",
 "each test picture is given through one entry point, once",
 [P, L], [("prepare* / without_preparation", P), ("Clone for PreparedImage", P), ("ImageBuffer impls", P)],
 "differential PBT between entry points, clones and repetitions"),
("C22", "Grids keep their modules; sizes and versions correspond",
 "A grid made from a function contains at every row and column what the function gave for that column (x) and row (y), for every size; a clone equals it and its bounds are zero. Sizes 21, 25 ... 177 correspond to versions 1-40 in both directions; sizes below 21 or above 180, however large, are an invalid version.",
 "all sizes x all module values",
 "sizes and versions of a few symbols only",
 [L, D], [("SimpleGrid::from_func / bit", L), ("Version::from_size / to_size", D)],
 "exhaustive sweep over sizes x PBT over module values"),
("C23", "Exported pictures show what was found",
 "The picture of a grid written to a file has one pixel per module, black for dark and white for light ones, row by row. The picture of a prepared image has its size; exactly its light pixels are white and exactly its dark pixels that belong to no region yet are black, before and after a search; all pixels of a connected dark region have the same colour.",
 "all images and grids, before and after a search",
 "no test looks at the exported pictures",
 [L, P], [("write_grid_to", L), ("write_state_to", P)],
 "round-trip PBT through PNG files in a scratch directory"),
("C24", "Nothing is reported where no code is",
 "A search reports at most one grid for every three shapes that resemble a finder pattern (a ring around a stone, both dark, in the proportions 1:1:3:1:1 across); with fewer than three such shapes there is none. A code with one finder pattern spoilt is not reported.",
 "all images; in particular codes with a spoilt finder and arrangements of finder-like shapes",
 IMG + " that contain codes",
 [T, M, P, I], [("is_capstone", T), ("find_groupings", P), ("from_group", I)],
 "PBT against an independent, more permissive count of finder-like shapes"),
("C25", "Binarisation keeps bright pixels white and sets dark ones apart",
 "Preparing a greyscale image of any size makes every pixel black or white; a pixel as bright as the brightest of the image is never black, so uniform images are white. A dark pixel (at most a third as bright) alone on light ground is black in images of 16 or more pixels width; bitmaps are taken as they are, a buffer given as already prepared is refused if it contains anything but 0 and 1, and reading outside of the image gives the nearest border pixel.",
 "all greyscale images and bitmaps",
 "binarisation is only tested through whole pictures",
 [P], [("prepare", P), ("prepare_from_bitmap", P), ("get_pixel_at_point", P)],
 "PBT of pixel-level invariants"),
("C26", "Results depend on the input only, not on earlier or concurrent calls",
 "Searching an image or decoding a grid gives the same result (modules, bounds, content or error) whichever other images and grids, sound or broken, similar or not, were processed before in the same thread, in other threads, or are processed at the same time: it is that of the same call in a new process.",
 "all histories of calls and concurrent calls",
 "tests make one call each",
 [L, D, P, T], [("absence of shared state; per-image region cache", P)],
 "model-based history PBT: random interleavings compared with each call on its own and with construction oracles"),
("C27", "The build without image support behaves identically",
 "Built without the image feature, the library gives the same binarisation, grids, bounds, contents, raw data and errors for every image and grid as the build with it.",
 "all images and grids x both build configurations",
 "the tests run in the default configuration only",
 [L, P, "Cargo.toml"], [("cfg(feature = \"img\")", P)],
 "differential PBT between two builds (separate processes)"),
("C28", "Stained codes are found and read as long as the damage is correctable",
 "A symbol drawn axis-aligned with 2 or more pixels per module and a quiet zone, with dark or light stains that leave the three finder patterns, one of the two timing patterns and the last alignment pattern alone, and whose modules as drawn are within the error correction capacity (format information included), yields exactly one grid, whose modules are those drawn and which decodes to its content. Images in which something else resembles a finder pattern are excepted.",
 "all symbols x shapes, sizes and places of stains x scales x orientations",
 IMG + " with little damage, none across a timing pattern",
 [I, T, D, P], [("measure_timing_pattern", I), ("find_alignment_pattern", I), ("jiggle_perspective / fitness_all", I), ("correct_block", D)],
 "end-to-end PBT: stains drawn into reference-encoded symbols, correctability decided by an independent decoder"),
("C29", "Codes scanned at fractional scales are read",
 "An upright symbol sampled onto a pixel grid at any fractional scale and offset, each pixel grey by the share of dark modules it covers (or collected from up to a tenth of a module around it; a quarter in one class), in a quiet zone of 4 or more modules with any brightness and at most 40 % residual light on dark modules, is found as exactly one grid that decodes to its content: for versions 2-4 with 8-12 pixels per module in at least 62 of any 64 such images, for versions 2-10 with 4 (versions above 4: 6) to 10 pixels per module in seven out of eight, and for version 1 (6-10 pixels) and versions 11-25 (8-12 pixels) in two out of three. Images in which something else resembles a finder pattern are excepted.",
 "all symbols x fractional scales x sub-pixel offsets x softness x brightness x orientations",
 IMG + " of rendered codes at whole pixel scales",
 [P, I, T, G], [("prepare: adaptive threshold", P), ("find_alignment_pattern / jiggle_perspective", I), ("find_leftmost_to_line / corner finding", T), ("BresenhamScan", G)],
 "end-to-end PBT over resampled reference-encoded symbols"),
("C30", "Memory is bounded by the input and given back",
 "Preparing and searching an image takes memory of at most a constant per pixel, a constant per pair of finder-like shapes and a constant; decoding a grid takes a constant and what its content needs. When the results are dropped nothing stays allocated, however often images are searched and grids, sound, broken or mirrored, are decoded.",
 "all images (entangled regions, hundreds of regions, many finder-like shapes) and all grids",
 "no test looks at memory, and each runs one small picture once",
 [P, T, M, D], [("flood_fill queue", P), ("region cache", P), ("find_possible_neighbors", M), ("decode: mirrored second attempt", D)],
 "PBT under a counting global allocator: peak during, and balance after, generated searches and decodings"),
]
quant = {"C11": ["inputs", "fault_sequences"], "C03": ["inputs", "fault_sequences"], "C26": ["histories", "schedules"], "C27": ["inputs", "configurations"], "C21": ["inputs", "histories"]}
notes = {
 "C16": "Exploration over the stated domain; the domain was chosen so that the unchanged detector, a heuristic, reads every view in it (several hundred thousand views). Trusts the reference encoder and rasteriser.",
 "C14": "Exploration; the limit per case is explicit and 2 to 6 times the worst work ever seen. A case that does not end without looking at pixels is found by its CPU time.",
}
level_note = "Random and swept generation, deterministic in VERIF_SEED; holds for everything generated, not a proof. Trusts the reference model in harness/src (encoder, decoder, rasteriser), which shares no code with rqrr; overflow checks and debug assertions are on."
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for id, title, st, q, why, files, mech, tech in props:
        assert len(title) <= 80, (id, len(title))
        f.write(json.dumps({"id": id, "title": title, "statement": st,
            "quantifier": {"over": quant.get(id, ["inputs"]), "text": q},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": ["public API"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bash run.sh build",
 "checks": [{"property": p[0], "quick_cmd": f"bash run.sh {p[0]}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p[0]}",
   "evidence_file": f"evidence/{p[0]}.json", "technique": p[7], "level": "exploration", "level_note": notes.get(p[0], level_note)} for p in props],
 "not_applicable": [],
 "notes": "No hooks: every check uses rqrr's public API. run.sh rebuilds harness and library from /repo's working tree before every check. Exit 2: build or harness error, exit 3: no answer in time. A case in which the library aborts, overflows its stack or does not end is found by a supervising process and reported as a violation."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
