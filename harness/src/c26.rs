//! C26: the dead stones named by simulation (feature deadstones; `rand` and `oxymcts` are stubs whose
//! choices are inputs of the harness).
#[cfg(feature = "deadstones")]
mod imp {
    use crate::geom::*;
    use crate::model::*;
    use crate::sym;

    const TABLE: usize = 64;
    static mut DRAW: [u8; TABLE] = [0; TABLE];
    static mut POS: usize = 0;
    static mut END: usize = 0;
    /// 0: runs that need more draws are left out; else draws after END are 0, and this many must do
    static mut LIMIT: usize = 0;
    #[no_mangle]
    pub extern "C-unwind" fn vchoice(n: u64) -> u64 {
        unsafe {
            if LIMIT == 0 {
                sym::assume(POS < END);
            } else if POS >= LIMIT {
                sym::check(false, 7);
                sym::assume(false);
            }
            let v = if POS < END { DRAW[POS] as u64 } else { 0 };
            POS += 1;
            if v < n {
                v
            } else {
                0
            }
        }
    }

    static mut MOVES: [Option<goban::rules::Move>; TABLE] = [None; TABLE];
    static mut MADE: usize = 0;
    /// the search names a move
    #[no_mangle]
    pub extern "C-unwind" fn vmoved(m: *const u8, size: u64) {
        unsafe {
            sym::assume(size as usize == std::mem::size_of::<goban::rules::Move>());
            if MADE < TABLE {
                MOVES[MADE] = Some(*(m as *const goban::rules::Move));
            }
            MADE += 1;
        }
    }
    /// Where the game ends that the search has played.
    fn played_out(game: &goban::rules::game::Game) -> goban::rules::game::Game {
        let mut end = game.clone();
        unsafe {
            for k in 0..TABLE {
                if k < MADE {
                    if let Some(m) = MOVES[k] {
                        end.play(m);
                    }
                }
            }
        }
        end
    }
    /// Exactly the floating groups are named that have lost a stone by the end of that game.
    fn check_named(game: &goban::rules::game::Game, floats: &[usize], dead: impl Fn(&usize) -> bool) {
        let end = played_out(game);
        for &f in floats {
            let mut lost = false;
            for s in game.chain_stones(f) {
                lost |= end.get_color(s.coord) != Some(s.color);
            }
            sym::check(dead(&f) == lost, 10);
        }
    }

    pub fn dead() {
        // cases: window(8), komi in half points, number of draws, simulations per move, passes before, illegal flags
        let g = Win::from_cases(0);
        let komi = sym::case(8) as f32 / 2.0;
        let draws = sym::casez(9);
        let sims = sym::casez(10);
        let (gb, b) = sym_position(&g);
        let n = b.n();
        let turn = sym::u8(1, 2);
        unsafe {
            POS = 0;
            MADE = 0;
            LIMIT = 0;
            END = draws;
            for k in 0..draws {
                DRAW[k] = sym::u8(0, g.cells() as u8);
            }
        }
        let mut game = game_on(gb, turn, rule(sym::case(12) as u32, 0, komi));
        for _ in 0..sym::casez(11) {
            game.play(goban::rules::Move::Pass);
        }
        let over = game.is_over();
        let mover = codec(game.turn());
        let moves = game.history().count();
        let floats = game.get_floating_stones();
        let dead = game.dead_stones_wth_simulations(sims);
        let mut count = 0usize;
        for id in &dead {
            count += 1;
            let mut among = false;
            for f in &floats {
                among |= f == id;
            }
            sym::check(among, 1);
        }
        sym::check(same(&game, &b), 2);
        let ids: Vec<usize> = floats.iter().copied().collect();
        check_named(&game, &ids, |f| dead.contains(f));
        sym::check(codec(game.turn()) == mover, 3);
        sym::check((game.is_over() == over) & (game.history().count() == moves), 4);
        let pr = game.prisoners();
        sym::check((pr.0 == 0) & (pr.1 == 0), 5);
        sym::check(n <= MAX, 6);
        sym::cover(count > 0, 1);
        sym::cover(count == 0, 2);
        sym::cover(floats.len() > count, 3);
    }

    /// It comes to an end: a fixed position, some free draws, then always the first choice.
    /// cases: height, width, turn, flags, draws, limit, cells...
    pub fn ends() {
        let (h, w) = (sym::casez(0), sym::casez(1));
        let draws = sym::casez(4);
        let mut gb = goban::pieces::goban::Goban::new((h as u8, w as u8));
        for r in 0..h {
            for c in 0..w {
                let q = sym::case((6 + r * w + c) as u32) as u8;
                if q != 0 {
                    gb.push((r as u8, c as u8), color(q));
                }
            }
        }
        unsafe {
            POS = 0;
            MADE = 0;
            LIMIT = sym::casez(5);
            END = draws;
            for k in 0..draws {
                DRAW[k] = sym::u8(0, 3);
            }
        }
        let game = game_on(gb, sym::case(2) as u8, rule(sym::case(3) as u32, 0, 0.5));
        let before = game.number_of_stones();
        let dead = game.dead_stones_wth_simulations(1);
        sym::check(game.number_of_stones() == before, 8);
        let floats = game.get_floating_stones();
        for id in &dead {
            sym::check(floats.iter().any(|f| f == id), 9);
        }
        let ids: Vec<usize> = floats.iter().copied().collect();
        check_named(&game, &ids, |f| dead.contains(f));
        sym::cover(dead.len() > 0, 1);
    }
}
#[cfg(feature = "deadstones")]
pub use imp::{dead, ends};
#[cfg(not(feature = "deadstones"))]
pub fn dead() {}
#[cfg(not(feature = "deadstones"))]
pub fn ends() {}
