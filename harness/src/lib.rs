#![allow(static_mut_refs)]
pub mod geom;
pub mod model;
pub mod sim;
pub mod sym;

/// Lists the harnesses (each module behind a feature of its name, so that a check compiles only what
/// it needs); in the symbolic build each becomes an exported function, in the native
/// build `entry` finds it by name.
macro_rules! entries {
    ($($m:ident $l:literal { $($f:ident = $n:ident),* })*) => {
        $(#[cfg(feature = $l)] pub mod $m;)*
        $($(
            #[cfg(all(feature = $l, not(feature = "native")))]
            #[no_mangle]
            pub extern "C" fn $n() { $m::$f() }
        )*)*
        #[cfg(feature = "native")]
        pub fn entry(name: &str) -> Option<fn()> {
            $($(#[cfg(feature = $l)] if name == stringify!($n) { return Some($m::$f); })*)*
            None
        }
    };
}
entries! {
    c01 "c01" { one = h_c01_move, after = h_c01_after }
    c03 "c03" { orders = h_c03_orders, pair = h_c03_pair, played = h_c03_played, keys = h_c03_keys, sizes = h_c03_sizes }
    c07 "c07" { lists = h_c07_lists, verdict = h_c07_verdict, tried = h_c07_tried }
    c08 "c08" { machine = h_c08_machine }
    c10 "c10" { score = h_c10_score, outcome = h_c10_outcome }
    c11 "c11" { territories = h_c11_territories, region = h_c11_region, partition = h_c11_partition }
    c04 "c04" { all = h_c04_all, after = h_c04_after }
    c05 "c05" { after = h_c05_after }
    c06 "c06" { after = h_c06_after, direct = h_c06_direct }
    c12 "c12" { points = h_c12_points, around = h_c12_around, capture = h_c12_capture, listed = h_c12_listed }
    c13 "c13" { arrays = h_c13_arrays, listings = h_c13_listings, text = h_c13_text, rebuilt = h_c13_rebuilt }
    c14 "c14" { configured = h_c14_configured, sizes = h_c14_sizes, presets = h_c14_presets }
    c15 "c15" { moves = h_c15_moves, sizes = h_c15_sizes, header = h_c15_header }
    c21 "c21" { long = h_c21_long }
    c16 "c16" { eye = h_c16_eye }
    c17 "c17" { simulated = h_c17_simulated }
    c18 "c18" { liberties = h_c18_liberties, dense = h_c18_dense, ring = h_c18_ring }
    c19 "c19" { removed = h_c19_removed }
    c20 "c20" { floating = h_c20_floating }
    c22 "c22" { outside = h_c22_outside }
    c23 "c23" { recorded = h_c23_recorded }
    c24 "c24" { offered = h_c24_offered }
    c26 "c26" { dead = h_c26_dead, ends = h_c26_ends }
    c27 "c27" { named = h_c27_named, placed = h_c27_placed, converted = h_c27_converted }
    c09 "c09" { after = h_c09_after }
    c02 "c02" { after_push = h_c02_push, after_move = h_c02_move, after_game = h_c02_game }
}
