//! The list of properties: how many cases, and what counts as a non-trivial one.

use crate::engine::{Prop, PropFn};
use crate::{p_decode as d, p_detect as i, p_mem as m, p_state as h};

const REF: &str = "the reference encoder/decoder in harness/src/qr.rs follows ISO/IEC 18004 (it is derived from the standard's construction rules, not from rqrr's tables)";
const LOOK: &str = "images in which data modules happen to resemble a finder pattern are excluded by an independent, more permissive look-alike test (counted under 'precondition')";

const fn p(id: &'static str, quick: u64, thorough: u64, run: PropFn, rule: &'static str, assumptions: &'static [&'static str]) -> Prop {
    Prop { id, quick, thorough, rule, assumptions, run }
}

pub const PROPS: &[Prop] = &[
    p("C01", 12_800, 384_000, d::round_trip, "sweep over all 1280 version/level/mask combinations x random mode (byte, numeric, alphanumeric), length (0 to capacity, biased to both ends) and characters; non-trivial: at least one character", &[REF]),
    p("C02", 30_000, 600_000, d::segments, "random sequences of 1-12 numeric/alphanumeric/byte/kanji/ECI segments, half of them filling the symbol to the last bit, over all versions; non-trivial: at least two content segments", &[REF]),
    p("C03", 16_000, 480_000, d::rs_capacity, "sweep over all 160 version/level combinations x codeword errors in every block up to floor(ec/2), positions and values random; non-trivial: at least one error", &[REF]),
    p("C04", 98_304, 655_360, d::format_info, "sweep over all 32768 words in the first format copy x second copy intact, damaged or contradicting; non-trivial: the first copy is not the word that was written", &[REF]),
    p("C05", 60_000, 1_200_000, d::no_silent_corruption, "damage around and beyond the correction limit (codewords, module noise, blots, mixed symbols), compared with an independent decoder; non-trivial: some block at or beyond its limit, or module-level damage", &[REF]),
    p("C06", 12_800, 256_000, d::mirrored, "sweep over all version/level/mask combinations, transposed, with and without correctable errors; non-trivial: the direct reading is invalid, so only the mirrored one can succeed", &[REF]),
    p("C07", 25_600, 256_000, d::raw_data, "sweep over all version/level/mask combinations x arbitrary modules; non-trivial: format information readable", &[REF]),
    p("C08", 12_800, 256_000, d::function_patterns, "sweep over all version/level/mask combinations with every function module outside of one format copy overwritten; non-trivial: at least one module changed", &[REF]),
    p("C09", 50_000, 1_200_000, d::broken_streams, "sound error-corrected symbols whose bit stream is broken (unknown mode, count past the end, cut-off headers, arbitrary bits); non-trivial: the reference reader finds the stream broken", &[REF]),
    p("C10", 40_000, 1_200_000, d::any_grid, "arbitrary module grids of size 0..400; non-trivial: illegal size, or a (damaged) symbol", &[]),
    p("C11", 60_000, 600_000, d::writers, "random symbols decoded into writers with short writes, interruptions and failures at every byte position; non-trivial: the writer is not a plain one", &[REF]),
    p("C12", 40_000, 800_000, d::strings, "texts over all UTF-8 lengths, possibly broken in one place, possibly split over segments; non-trivial: a non-ASCII byte", &[REF]),
    p("C13", 40_000, 1_600_000, i::any_image, "adversarial scenes: noise, stripes, warped finder-like shapes, symbols under strong perspective (also with the fourth corner near the horizon) or damage; non-trivial: more than 49 pixels, some dark", &[]),
    p("C14", 12_000, 160_000, i::bounded_work, "adversarial scenes with a pixel-access counter, the limit computed from an independent survey of the image; non-trivial: at least three finder-like shapes, or a line in finder proportions", &[]),
    p("C15", 20_000, 200_000, i::clean_image, "random symbols (all versions) painted upright at 2+ px/module, any of the 8 orientations and quiet zone, a quarter of them with correctable codeword errors; non-trivial: precondition met", &[REF, LOOK]),
    p("C16", 2_000, 24_000, i::rotated, "random symbols under rotation, stretch, shear and mild perspective: nine of ten cases are 2 views that must all be read, the others batches of 64 views of a harder class (small, strong perspective or shear, large versions, photographs) of which at most 1/8 (version 1 at 5-7 px/module: 1/4) may stay unread; non-trivial: precondition met for a view", &[REF, LOOK]),
    p("C17", 12_000, 160_000, i::lighting, "random symbols in grey images of varying brightness, contrast, illumination gradient and noise; non-trivial: precondition met", &[REF, LOOK]),
    p("C18", 8_000, 120_000, i::many_codes, "1-36 random symbols in one image, in a row, in rows and columns or scattered; non-trivial: two or more codes and precondition met", &[REF, LOOK]),
    p("C19", 12_000, 160_000, i::clutter, "one symbol among hundreds of bar groups shaped like a finder's cross-section, and big shapes; non-trivial: precondition met and clutter present", &[REF, LOOK]),
    p("C20", 10_000, 60_000, i::bounds, "as C15 and C16, comparing reported corners to where the corners were painted; non-trivial: the code was read", &[REF, LOOK]),
    p("C21", 3_000, 80_000, i::entry_points, "scenes with and without codes given through every way of preparing an image; non-trivial: at least one grid found", &[]),
    p("C22", 22_000, 176_000, d::grids_and_versions, "sweep over sizes 0..439 (a few up to 1500) with random modules, version of sizes of any magnitude; non-trivial: size above 0", &[]),
    p("C23", 12_000, 120_000, i::exports, "scenes before and after the search, written to PNG and read back; non-trivial: image written", &[]),
    p("C24", 80_000, 1_600_000, i::nothing_there, "scenes without a complete code, finder-like shapes counted independently; non-trivial: at least one finder-like shape", &[LOOK]),
    p("C25", 600_000, 4_000_000, i::binarise, "uniform, noisy, dotted and checked grey images, a few of them large; non-trivial: more than one pixel", &[]),
    p("C26", 3_000, 60_000, h::histories, "2-5 calls (grids sound, damaged, destroyed, mirrored; images; slightly changed copies of each other) run alone, then in a random order of up to 15 steps, then concurrently, a third also with callbacks that panic or make calls of their own; every history is non-trivial", &[REF]),
    p("C27", 16_000, 160_000, h::configurations, "random grids and images given to the library built with and without image support (separate process); non-trivial: at least one grid decoded", &[]),
    p("C28", 24_000, 400_000, i::stained, "upright symbols with 1-4 stains (dark, light, round, specks) that leave finders, one timing pattern and the last alignment pattern alone and damage no more than can be corrected; non-trivial: at least one module changed", &[REF, LOOK]),
    p("C29", 120, 4_000, i::resampled, "upright symbols at fractional scales and offsets, area-sampled and softened, in grey, in batches of 64; non-trivial: at least one image meets the precondition", &[REF, LOOK]),
    p("C30", 8_000, 160_000, m::memory, "adversarial images (entangled regions, hundreds of regions, finder-like shapes) searched and decoded, and sound, broken and noisy grids decoded, under an allocator that counts; non-trivial: more than 100 pixels, or content decoded", &[]),
];
