#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run it after changing the list)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mechanism, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=state))

SYM = ["src/decode/qr/decoder.rs", "src/decode/qr/blocks.rs", "src/decode/qr/mod.rs", "src/decode/qr/format.rs", "src/decode/qr/data.rs"]

prop("C01", "Every undamaged symbol is read as exactly the text it encodes",
     "Given the modules of an undamaged Model 2 QR symbol - any version 1 to 40, any error correction level, any mask, text in numeric, alphanumeric or byte segments of any allowed length, in any mixture - decoding returns exactly the encoded text. Bytes stand for ISO 8859-1 characters, or for UTF-8 text if the segment contains the byte 0xC3. No character is lost, added, changed or reordered, wherever the symbol's data ends: with a full symbol, with a short terminator, or with padding.",
     ["inputs"], "all versions x levels x masks x segment mixtures x data lengths",
     "The tests decode a handful of fixed symbols of a few versions, so most of the 160 block layouts, 8 masks, three length-field widths and the ends of the data are never read.",
     SYM, [("block layout of every version and level", "src/decode/qr/mod.rs block_info"), ("module order, function patterns, interleaving", "src/decode/qr/blocks.rs blocks, is_data, Blocks::push"), ("masks", "src/decode/qr/format.rs mask"), ("segments", "src/decode/qr/data.rs data, numeric, alphanumeric, eight_bit")],
     ["result of decoding a module grid", "result of decoding a drawn picture"],
     "runtime monitoring: round-trip oracle (independent reference encoder) over a covering symbol workload, arithmetic-overflow checks on",
     "Every one of the 1280 version/level/mask combinations is decoded several times per run, with lengths at every boundary; trusts the reference encoder, which was written from the standard and cross-checked against the repository's own images.")
prop("C02", "Damage within the correction capacity never changes the text",
     "As long as no block of a symbol has more wrong codewords than its error correction level is specified to correct, decoding returns the encoded text, whatever the positions and values of the damage. This holds for every version and level, for damage in data as well as in check codewords, also while up to three bits of each copy of the format information are wrong, and whatever the modules that carry no codewords look like.",
     ["inputs", "fault_sequences"], "all symbols x all damage of at most the correctable number of codewords per block",
     "The tests correct a few fixed patterns in one or two symbols; positions and values of errors, and the blocks they fall in, are a space that samples cannot cover, and wrong arithmetic for rare values stays unseen.",
     ["src/decode/qr/correct.rs", "src/decode/qr/galois.rs", "src/decode/qr/mod.rs", "src/decode/qr/blocks.rs"], [("syndromes, error locations and values", "src/decode/qr/correct.rs correct_with_error_count"), ("field arithmetic", "src/decode/qr/galois.rs GF8"), ("capacity of each block", "src/decode/qr/mod.rs block_info")],
     ["result of decoding a damaged module grid"],
     "runtime monitoring with fault injection: reference encoder + codeword damage injector, round-trip oracle",
     "Every version and level with damage up to exactly the capacity in many shapes (bursts, ends, equal values, cancelling values, data only, check only); sampled, not exhaustive, in positions and values.")
prop("C03", "Damage beyond repair is reported, never returned as invented text",
     "When a symbol's damage cannot be corrected the result is an error; text is only ever returned if the symbol as read, with at most the correctable number of codewords changed in every block, really encodes it. In particular damage that leaves some of the checks of a block satisfied is not accepted as undamaged or as corrected.",
     ["inputs", "fault_sequences"], "all symbols x all damage, including damage built to satisfy part of the checks",
     "The tests try one uncorrectable symbol; whether every check of a block is really verified only shows for damage built to satisfy the others.",
     ["src/decode/qr/correct.rs", "src/decode/qr/decoder.rs", "src/decode/qr/blocks.rs"], [("verification after the correction", "src/decode/qr/correct.rs correct_with_error_count"), ("syndromes", "src/decode/qr/correct.rs calculate_syndromes")],
     ["result of decoding a damaged module grid"],
     "runtime monitoring with fault injection: bounded-distance oracle (reference Reed-Solomon decoder) on every answer",
     "Damage just beyond capacity, damage blind to chosen syndromes, damage towards other codewords, module noise; each answer is judged by an independent decoder.")
prop("C04", "Format information is recovered from up to three wrong bits in either copy",
     "A symbol whose first copy of the format information has at most three wrong bits is decoded with the level and mask it was made with; if the first copy cannot be recovered but the second has at most three wrong bits, the second decides. If neither can be recovered the result is an error, not text.",
     ["inputs", "fault_sequences"], "all 32 format values x all 15-bit words in either copy x versions",
     "The tests correct single examples; the 32768 possible words of each copy, and which copy decides, are not enumerated.",
     ["src/decode/qr/format.rs", "src/decode/qr/galois.rs"], [("BCH correction", "src/decode/qr/format.rs correct, syndromes"), ("choice of the copy", "src/decode/qr/format.rs format, format1, format2"), ("field arithmetic", "src/decode/qr/galois.rs GF4")],
     ["result and report of decoding a module grid"],
     "runtime monitoring with exhaustive fault injection into both copies, nearest-codeword oracle",
     "Per run all 2^15 words in each copy of some symbol, and up to three wrong bits in both copies for all versions; the rest of the symbol is sampled.")
prop("C05", "The report about a code matches the code, and reporting changes no result",
     "Decoding with information gives the same text, or fails on the same symbols, as decoding without. The information gives the symbol's true version and level, the number of data bits it holds, and the exact number of wrong bits that were corrected in its codewords - zero for an undamaged symbol.",
     ["inputs", "fault_sequences"], "all versions x levels x masks x correctable damage; uncorrectable and arbitrary symbols for the agreement",
     "The tests check the report of two symbols without or with one fixed error; they compare the two decoders on nothing.",
     ["src/decode/qr/decoder.rs", "src/decode/qr/correct.rs", "src/util/qr.rs"], [("report", "src/decode/qr/decoder.rs QRDecoderWithInfo"), ("counting of wrong bits", "src/decode/qr/correct.rs correct_with_error_count"), ("same steps in both decoders", "src/decode/qr/decoder.rs QRDecoder")],
     ["report of decoding a module grid", "report of decoding a picture"],
     "runtime monitoring with fault injection: injected damage is counted and compared with the report; two decoders run in lockstep",
     "All versions and levels, every correctable amount of damage; also on drawn pictures.")
prop("C06", "Data codewords are read as the standard says or refused, never reinterpreted",
     "For correctly protected data codewords of any content, decoding returns the text the standard gives them (bytes being ISO 8859-1, or UTF-8 if the segment contains the byte 0xC3), or an error if they are no valid text: a digit group, character pair or byte sequence with no meaning, a segment that is cut off by the end of the data, or an unknown or unsupported kind of segment. It never returns text that leaves out, replaces or invents part of such data; a terminator, or too little room for another segment, ends the text.",
     ["inputs"], "all contents of the data codewords of any symbol",
     "The tests read a few valid segments; the invalid values of every group size, the cut-off lengths and the unsupported modes are not sampled at all.",
     ["src/decode/qr/data.rs", "src/util/chomp.rs"], [("segments and their ends", "src/decode/qr/data.rs data"), ("ranges of digits and characters", "src/decode/qr/data.rs read_digits, alphanumeric"), ("bit reader", "src/util/chomp.rs Chomp")],
     ["result of decoding a module grid"],
     "runtime monitoring: differential oracle (reference bit-stream parser) over crafted and random data codewords",
     "Every value of every short group, all kinds of truncation, random contents; judged per symbol by an independent parser that leaves open only what the standard leaves open.")
prop("C07", "Decoding any module grid ends promptly with text or an error",
     "For any module grid whatever - random, uniform, any claimed version number, valid format information over arbitrary codewords - decoding returns text or an error. It never panics, overflows, hangs or uses memory out of proportion to the grid.",
     ["inputs"], "all module grids and version numbers whose number of pixels fits the version",
     "The tests feed the decoder well-formed symbols only.",
     SYM + ["src/decode/qr/correct.rs", "src/util/chomp.rs", "src/util/qr.rs"], [("errors instead of panics", "src/decode/qr/*.rs Result types"), ("impossible versions", "src/decode/qr/mod.rs block_info"), ("bounded reads", "src/util/chomp.rs nibble")],
     ["panics", "CPU time and heap of each call"],
     "runtime monitoring: panic, CPU-time and heap monitors, overflow and debug assertions, AddressSanitizer (thorough), hostile grids",
     "Hostile grids under overflow checks and in the plain release build; time limit 40 s of CPU per call, memory limit proportional to the grid.")
prop("C08", "No image makes the decoder panic or run away",
     "For any image - of any size including zero-sized, narrow or tiny ones, any content, QR codes cut off or overlapping the border included - decoding returns a list, in time and memory in proportion to the size of the image. The same holds for each default stage by itself and for any positive block sizes of the binarization.",
     ["inputs", "configurations"], "all images and block sizes within memory; sampled by hostile generators",
     "The tests read a dozen ordinary pictures; degenerate sizes, borders and noise are where index arithmetic goes wrong.",
     ["src/decoder.rs", "src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("bounds of blocks", "src/prepare/blockedmean.rs as_block_map, to_block_mean_map"), ("bounds while refining", "src/detect/linescan.rs refine_horizontal, refine_vertical, refine_diagonal"), ("bounds while extracting", "src/extract/qr/mod.rs extract, is_alignment")],
     ["panics", "CPU time and heap of each call"],
     "runtime monitoring: panic, CPU-time and heap monitors, overflow and debug assertions, AddressSanitizer (thorough), hostile images",
     "Cost is judged by fixed limits (1.5 s of CPU + 0.4 us per pixel; 4 MB + 64 bytes per pixel), some ten times what is used. Pictures of hundreds of finder patterns exceed them (an open finding: cost grows with the cube of their number); apart from one lattice of them, generators keep the number of finder-like shapes lower.")
prop("C09", "A clean straight picture of a code is read, in any quarter turn",
     "A picture of one undamaged code, drawn black on white with a whole number of pixels per module (three or more; two suffice if it stands upright) and a quiet zone of four modules, is read: the result is the encoded text, exactly once. This holds for every version, for all four quarter turns, wherever the code lies in the picture.",
     ["inputs"], "all symbols x quarter turns x module sizes x margins",
     "The tests read about fifteen fixed pictures, most of them version 1 to 4 and upright.",
     ["src/decoder.rs", "src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("finder patterns", "src/detect/linescan.rs detect, refine, looks_like_finder"), ("which three belong together", "src/detect/linescan.rs find_qr"), ("perspective", "src/extract/qr/mod.rs determine_perspective"), ("binarization", "src/prepare/blockedmean.rs")],
     ["list of results for a picture"],
     "runtime monitoring: end-to-end round-trip oracle over drawn pictures, with redrawing to separate chance look-alikes from defects",
     "A single drawing in about 10^5 has data that imitates a finder pattern next to a real one and is missed; such a miss is only tolerated if other drawings of the same symbol are read, and its rate is capped.")
prop("C10", "Turned, tilted, scaled and slightly distorted pictures are read",
     "A picture of one undamaged code with four to ten pixels per module that is turned by up to 15 degrees from a quarter turn, scaled by any factor, stretched or slanted by a few percent, or seen in slight perspective, is read as the encoded text, once. It is never read as another text.",
     ["inputs"], "all small symbols x maps within the stated range; misses capped at 0.5 % per kind of distortion and per version (3 % for version 1 with less than six pixels per module)",
     "The tests contain a few photographs; the space of distortions is continuous.",
     ["src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("tolerances of the scan", "src/detect/linescan.rs looks_like_finder, refine"), ("geometry of the corners", "src/detect/linescan.rs find_qr_internal"), ("alignment pattern and local steps", "src/extract/qr/mod.rs determine_perspective, extract")],
     ["list of results for a picture"],
     "runtime monitoring: end-to-end oracle over rendered pictures, statistical cap on misses per class, wrong text never",
     "Wrong texts are violations one by one; misses only beyond a cap of 0.5 % per class (0.3 % overall), because detection is heuristic by design.")
prop("C11", "Uneven light, low contrast, colour, blur and noise do not defeat reading",
     "A picture of one undamaged code is read as its text, once, in the dark, under low contrast, on gray paper, under light that falls off linearly or as a spot, with slight blur, with noise or hairline scratches, or in any two colours of sufficiently different brightness. It is never read as another text.",
     ["inputs"], "all small symbols x lighting within the stated range; misses capped at 0.5 % per class (blur 1 %) and version",
     "The tests contain a few photographs with their one lighting each.",
     ["src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("local threshold", "src/prepare/blockedmean.rs to_block_mean_map, to_threshold"), ("noise tolerance", "src/detect/linescan.rs slide_with_noise")],
     ["list of results for a picture"],
     "runtime monitoring: end-to-end oracle over rendered pictures, statistical cap on misses per class, wrong text never",
     "As C10: wrong texts are violations one by one, misses beyond the cap.")
prop("C12", "Each of several codes in a picture is reported, exactly once",
     "In a picture with two to sixty codes on white, clear of each other and drawn straight, every readable code is reported exactly once with its own text, in whatever arrangement, size, version and orientation, including the same code drawn twice. An unreadable code does not keep the others from being reported.",
     ["inputs"], "arrangements of two to four symbols, and sheets of up to sixty; misses capped at 0.02 %",
     "The tests contain one picture with several codes.",
     ["src/detect/linescan.rs", "src/decoder.rs"], [("one candidate per finder pattern", "src/detect/linescan.rs detect (dedupe)"), ("triples of candidates", "src/detect/linescan.rs detect, find_qr"), ("all locations are decoded", "src/decoder.rs decode")],
     ["list of results for a picture"],
     "runtime monitoring: conservation oracle (multiset of drawn texts = multiset of reported texts)",
     "Duplicates and foreign texts are violations one by one, misses beyond a cap of 0.02 %.")
prop("C13", "Reported locations are the true corners, version and module size",
     "For a picture with one code, exactly one reported location has the code's three finder centres in their right roles (to within about a module), its version and its module size. Whatever the picture, each reported location describes a possible code: corners inside the picture and at the dark centres of their finder patterns, right-handed, nearly perpendicular and equally long sides, a version from 1 to 40 consistent with its distance and module size.",
     ["inputs"], "pictures as in C09 and C10 with known geometry, and arbitrary black and white pictures",
     "The tests only observe locations through texts that decode.",
     ["src/detect/linescan.rs", "src/util/qr.rs"], [("centre refinement", "src/detect/linescan.rs refine_horizontal, refine_vertical, refine_diagonal"), ("roles of the corners and version", "src/detect/linescan.rs find_qr_internal")],
     ["list of locations for a binarized picture"],
     "runtime monitoring: geometric oracle (known drawing map) and invariants on every reported location",
     "Invariants are checked on every location; misses of drawn codes beyond a cap (0.02 % straight, 0.5 % distorted).")
prop("C14", "A decoder is exactly the composition of the stages it was built from",
     "A decoder built from any stages prepares each image once, detects on the prepared image once, and extracts and decodes each reported location exactly once, in order, passing every stage's values and errors on unchanged; its result has one entry per location in the same order, and is empty if nothing was located. The last stage set for a slot is the one used, building without a required stage panics, and the default decoders equal the hand-made composition of the default stages.",
     ["histories", "configurations"], "all stage behaviours and builder call sequences; sampled with recording stages",
     "The tests build only the default decoder.",
     ["src/decoder.rs"], [("pipeline", "src/decoder.rs Decoder::decode"), ("builder", "src/decoder.rs DecoderBuilder")],
     ["trace of calls and values at the stage interfaces", "results"],
     "runtime monitoring: recorded traces of instrumented stages checked against a trace specification",
     "Recording stages see every call and value; builder histories are random sequences.")
prop("C15", "Results depend on the image alone, not on history, instance or thread",
     "Decoding an image gives the same list of results, in the same order, whether it is the first or the hundredth image a decoder sees, whichever decoder instance or thread decodes it, and whatever is decoded at the same time. The same holds for decoding a module grid and for each default stage, and no stage changes its input.",
     ["histories", "schedules"], "all histories of decodings and interleavings of decoding threads; sampled",
     "The tests decode one image per decoder in one thread.",
     ["src/decoder.rs", "src/detect/linescan.rs", "src/prepare/blockedmean.rs", "src/extract/qr/mod.rs", "src/decode/qr/decoder.rs"], [("stages hold no mutable state", "src/decoder.rs, LineScan, BlockedMean, QRExtractor, QRDecoder"), ("fresh pattern per line", "src/detect/linescan.rs QRFinderPattern::new")],
     ["results of histories and of concurrent decodings"],
     "runtime monitoring: history and concurrency oracle (reference answers recorded alone, compared under shuffled histories and threads)",
     "The library is safe Rust without unsafe blocks, so data races are excluded by the compiler; the monitor looks for hidden state (statics, caches, thread locals).")
prop("C16", "The same pixels give the same result in every image representation",
     "An image decodes to the same results whether it is handed over as RGBA buffer, as a dynamic image of any lossless pixel format, as a view into a larger image, or as any other source of the same RGBA pixels. Only colour matters: transparency does not change the result.",
     ["inputs", "configurations"], "all pictures x representations",
     "The tests load files as dynamic images only.",
     ["src/decoder.rs", "src/prepare/blockedmean.rs"], [("generic image access", "src/prepare/blockedmean.rs prepare"), ("generic default decoder", "src/decoder.rs default_builder")],
     ["results per representation"],
     "runtime monitoring: metamorphic oracle, same pixels through all representations",
     "All dynamic formats of the image library, sub-image views, and a custom source whose accesses are monitored for bounds.")
prop("C17", "The bit reader delivers each bit once, in order, and refusals consume nothing",
     "Reading 1 to 8, or 1 to 16, bits at a time from a byte string gives exactly the string's bits in order, most significant first, whatever the sequence of request sizes. A request for more bits than remain, or than can be returned at once, is refused and leaves the remaining bits as they were.",
     ["inputs", "histories"], "all byte strings x request histories",
     "The tests make a few fixed requests.",
     ["src/util/chomp.rs"], [("bit reader", "src/util/chomp.rs Chomp")],
     ["results of each request"],
     "runtime monitoring: step-by-step comparison of request histories with a bit-counting model",
     "Millions of random histories, and all pairs of request sizes on all 16-bit strings.")
prop("C18", "Writing debug images never changes what is decoded",
     "A build that writes debug images returns, for every image, the same results as one that does not. This holds too when the debug folder cannot be created or written, and no image makes the writing of debug images panic.",
     ["inputs", "configurations", "fault_sequences"], "all pictures x states of the debug folder",
     "The tests are never built with the feature on.",
     ["src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/prepare/blockedmean.rs", "src/decode/qr/decoder.rs"], [("guarded code", "cfg(feature = debug-images) blocks")],
     ["results of both builds", "files written"],
     "runtime monitoring: differential oracle between the two builds, with fault injection into the debug folder",
     "Runs batches of pictures in both builds with the temporary folder inside a scratch folder; blocked and unwritable folders included.")
prop("C19", "Binarization is exactly the documented local threshold",
     "Binarization keeps the image's size and makes every pixel black or white: white where the mean brightness of the pixel's neighbourhood is above 250, black where it is below 5, otherwise white exactly if the pixel is brighter than that mean. The neighbourhood reaches, in blocks of the given size counted from the top left, from (n-1)/2 blocks before the pixel's own block up to, but excluding, (n-1)/2 blocks after it (at least one block), clipped to the image and to its whole blocks. Brightness is the integer luma of the colour; all image sizes, block sizes and neighbourhood sizes n obey this, including blocks larger than the image.",
     ["inputs", "configurations"], "all images x block sizes x neighbourhood sizes",
     "The tests compare a few tiny images.",
     ["src/prepare/blockedmean.rs"], [("block sums", "src/prepare/blockedmean.rs as_block_map"), ("neighbourhoods", "src/prepare/blockedmean.rs to_block_mean_map"), ("threshold", "src/prepare/blockedmean.rs to_threshold")],
     ["binarized picture"],
     "runtime monitoring: pixel-exact differential oracle (direct evaluation of the definition)",
     "Pixel-exact comparison for all picture sizes up to 33x33 and thousands of random pictures and block sizes.")
prop("C20", "Extraction reads exactly the drawn modules, or refuses",
     "Given the true location of a drawn code, straight or slightly distorted, extraction returns its grid of modules exactly, with the location's version and the matching number of modules. A location whose modules lie outside the image in any direction gives an error, never a panic or an invented module.",
     ["inputs"], "all versions x quarter turns x module sizes x slight distortions, and locations reaching outside; inexact grids capped at 0.05 % for distorted pictures",
     "The tests extract from whole photographs only and see single wrong modules never, because error correction hides them.",
     ["src/extract/qr/mod.rs", "src/util/qr.rs"], [("steps between modules", "src/extract/qr/mod.rs extract, Perspective"), ("alignment pattern", "src/extract/qr/mod.rs determine_perspective, is_alignment"), ("grid", "src/util/qr.rs QRData::new")],
     ["extracted grid"],
     "runtime monitoring: module-exact oracle (known drawing), error correction bypassed",
     "Module-exact for straight pictures; distorted pictures capped at 0.05 % inexact.")
prop("C21", "No text is ever reported that is not in the picture",
     "Every text reported for a picture is the text of a code that is really drawn in it: damaged, cut, smeared, noisy or overlapping codes, mixtures of parts of codes, and pictures without any code give errors or nothing. Codes that are there are not reported under a changed text.",
     ["inputs", "fault_sequences"], "all pictures whose codes are known; sampled by hostile generators",
     "The tests only look at pictures that decode.",
     ["src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/decode/qr/correct.rs", "src/decode/qr/format.rs", "src/decode/qr/data.rs"], [("error correction with verification", "src/decode/qr/correct.rs"), ("validation of data", "src/decode/qr/data.rs"), ("plausible locations", "src/detect/linescan.rs find_qr")],
     ["list of results for a picture"],
     "runtime monitoring with fault injection at picture level: no-invention oracle on every reported text",
     "Each reported text is checked against the set of drawn texts.")
prop("C22", "A damaged code in a picture is read while its damage is correctable",
     "A picture of one code that is stained, scratched or partly covered - without touching its finder, timing and alignment patterns - gives the code's text once, as long as no block has more wrong codewords than its level can correct and no copy of the format information more than three wrong bits. The report gives the code's true version and level, and for a picture with straight, sharp modules the exact number of wrong codeword bits.",
     ["inputs", "fault_sequences"], "all pictures of one code of versions 1 to 12, straight or slightly distorted, x all such damage; at most 0.03 % may be missed (0.1 % of each kind of damage)",
     "No test damages a picture; large dark or light areas change the thresholds, the run lengths and the patterns that are found.",
     ["src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/decode/qr/decoder.rs", "src/decode/qr/correct.rs", "src/decode/qr/format.rs"], [("thresholds near large uniform areas", "src/prepare/blockedmean.rs to_threshold"), ("finder patterns next to stains", "src/detect/linescan.rs QRFinderPattern"), ("correction", "src/decode/qr/correct.rs correct_with_error_count")],
     ["results and report for a picture"],
     "runtime monitoring with fault injection at picture level: damage within the budget of every block is drawn, text and report are compared",
     "Stains, logos, scattered and format damage up to exactly the capacity, drawn by modules; blots and strokes painted over distorted pictures, with every touched codeword counted as wrong.")

prop("C23", "Points, grids and errors of the public interface keep what they are given",
     "Adding, subtracting and scaling of points and differences works on each coordinate by itself, for all numbers. A module grid keeps its version and pixels, has 4 * version + 17 modules per side, and gives 1 at [column, row] exactly where the pixel is black. An error keeps its message, is shown as \"Error decoding QR Code: \" and the message, and comes out of a decoder as the same error; one made from bytes that are no UTF-8 names these bytes.",
     ["inputs"], "all coordinates, factors, grids of versions 0 to 40 and messages",
     "The tests use these types but check them with one example.",
     ["src/util/point.rs", "src/util/qr.rs", "src/decoder.rs"], [("arithmetic", "src/util/point.rs"), ("grid and index", "src/util/qr.rs QRData"), ("errors", "src/util/qr.rs QRError, src/decoder.rs decode")],
     ["values of the public types"],
     "runtime monitoring: model-based comparison of every operation on random and extreme values",
     "Half a million operands, all grid sizes, thousands of messages per run.")

prop("C24", "Logging never changes what is decoded",
     "Whatever log level is set and whatever the logger does with the records - write them out in full, or even decode other pictures meanwhile - every image and every module grid gives the same results as with logging turned off. No input makes writing a record panic.",
     ["inputs", "configurations"], "all images and module grids x all log levels x loggers",
     "No test installs a logger, so the arguments of the log statements are never even evaluated.",
     ["src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/decode/qr/data.rs", "src/decode/qr/blocks.rs", "src/decode/qr/correct.rs", "src/decode/qr/format.rs"], [("log statements between the steps", "every debug! and trace! in detect, extract and decode")],
     ["results of two processes, one with and one without a logger", "records received"],
     "runtime monitoring: differential runs of a process with a tapping logger (plain or re-entrant) against one without",
     "Pictures and grids of all kinds, broken ones included, in batches; millions of records written out per run.")

prop("C25", "Other things around a code, or the picture's border, do not hide it",
     "A picture of one undamaged code, upright or slightly turned, is read as its text, once, whatever else the picture shows outside of the code's quiet zone: writing, bars, rectangles, lines, dots, textures, or squares like finder patterns. The same holds if the picture ends anywhere from four modules away to the very edge of the code, on any of its sides, and for a small code anywhere in a picture of many megapixels.",
     ["inputs"], "all pictures of one code of versions 1 to 8 x all surroundings and cuts; of each kind of surrounding at most 0.1 % may be missed, overall 0.03 %",
     "The tests show a handful of fixed photographs; what stands next to a code decides which candidates are found, merged and combined.",
     ["src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("candidates that are no finder patterns", "src/detect/linescan.rs detect, refine"), ("runs that end at the border", "src/detect/linescan.rs detect, refine"), ("choice of three candidates", "src/detect/linescan.rs find_qr_internal")],
     ["list of results for a picture"],
     "runtime monitoring: exactly the drawn text for generated pictures with surroundings, with limits on the share of misses",
     "Nine kinds of surroundings up to the quiet zone, all combinations of cut sides at widths of none to four modules, pictures of up to 12 megapixels.")

prop("C26", "Decoding keeps no memory",
     "However many images or module grids a process has decoded, successfully or not, it holds no more memory than after the first few: what a decoding takes is given back once its results are dropped. This holds for fresh decoders, for one decoder used again and again, for each stage by itself, and also if every image is a new one.",
     ["histories"], "all histories of decodings",
     "The tests decode once and exit; what stays behind shows only in a history.",
     ["src/decoder.rs", "src/decode/qr/decoder.rs", "src/decode/qr/correct.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/prepare/blockedmean.rs"], [("values owned by one call", "src/decoder.rs decode"), ("stateless stages", "all stages")],
     ["live heap bytes of the process after every round"],
     "runtime monitoring: leak monitor in the global allocator over long histories",
     "Live bytes of a process are compared round after round, for repeated and for ever new inputs.")

NA = []
NOTES = ("All checks are one monitor runtime (harness/) that runs the real code in threads and processes, watches every call (panics, CPU time, heap, overflow and debug assertions) "
         "and judges every answer by an independent oracle; see DESIGN.md. No hooks in /repo were needed: everything is observed at public interfaces. Replays: ./run.sh replay FILE.")

def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["tests"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                 "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    na = {n["property"] for n in NA}
    m = {"version": 1, "setup_cmd": "./run.sh setup",
         "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if p["id"] not in na],
         "not_applicable": NA, "notes": NOTES}
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    open(f"{ROOT}/MANIFEST.json", "a").write("\n")
    print(len(P), "properties")
main()
