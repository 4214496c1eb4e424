//! C15: importing an SGF game.
use crate::c10::KOMI;
use crate::geom::*;
use crate::model::*;
use crate::sim::*;
use crate::sym;
use goban::rules::game::Game;
use goban::rules::{EndGame, IllegalRules, ScoreRules, CHINESE, JAPANESE};
use sgf_parser::{Action, GameNode, GameTree, Outcome, RuleSet, SgfToken};

type C = sgf_parser::Color;

/// The symbolic build hands the tree to the replaced parser; the native one goes through the text.
#[cfg(not(feature = "native"))]
fn import_tree(tree: GameTree) -> Result<Game, String> {
    unsafe {
        sgf_parser::NEXT = Some(tree);
    }
    Game::from_sgf("")
}
#[cfg(feature = "native")]
fn import_tree(given: GameTree) -> Result<Game, String> {
    fn write(t: &GameTree, s: &mut String) {
        s.push('(');
        for n in &t.nodes {
            s.push(';');
            for t in &n.tokens {
                let x: String = t.into();
                s.push_str(&x);
            }
        }
        for v in &t.variations {
            write(v, s);
        }
        s.push(')');
    }
    let mut s = String::new();
    write(&given, &mut s);
    let tree = sgf_parser::parse(&s).expect("harness: unreadable text");
    assert!(tree == given, "harness: the text means another tree: {s}");
    let _ = GameTree::default();
    Game::from_sgf(&s)
}
fn import(nodes: Vec<GameNode>) -> Result<Game, String> {
    import_tree(GameTree { nodes, variations: vec![] })
}
/// properties that say nothing about the game
fn note(kind: usize) -> SgfToken {
    match kind {
        0 => SgfToken::Comment("x".to_string()),
        1 => SgfToken::Time { color: C::White, time: 30 },
        2 => SgfToken::Label { label: "a".to_string(), coordinate: (1, 1) },
        3 => SgfToken::Square { coordinate: (1, 1) },
        4 => SgfToken::Unknown(("TMP".to_string(), "W".to_string())),
        5 => SgfToken::MovesRemaining { color: C::Black, moves: 3 },
        6 => SgfToken::PlayerName { color: C::White, name: "W".to_string() },
        7 => SgfToken::TimeLimit(60),
        8 => SgfToken::GameName("B".to_string()),
        _ => SgfToken::Date("x".to_string()),
    }
}
fn sgf(c: u8) -> C {
    if c == 1 {
        C::Black
    } else {
        C::White
    }
}
fn place(b: &mut B, x: u8, y: u8, col: u8) -> bool {
    let mut free = false;
    for p in 0..b.n() {
        let here = ((p / b.w) as u8 + 1 == y) & ((p % b.w) as u8 + 1 == x);
        let ok = here & (b.c[p] == 0);
        free |= ok;
        if ok {
            b.c[p] = col;
        }
    }
    free
}

/// Setup stones and moves.   cases: h, w, notes (a bit for the root, two per move: before/after), setup
/// stones, moves, kind of note, side variations (0 none, k: the main line goes on in the first of several variations
/// after node k-1), and which coordinates are used: first column, first row (from 1), how many (0: any near the board)
pub fn moves() {
    let (h, w) = (sym::casez(0), sym::casez(1));
    let notes = sym::casez(2);
    let (ns, nm) = (sym::casez(3), sym::casez(4));
    let (kind, split) = (sym::casez(5), sym::casez(6));
    let (x0, y0, span) = (sym::casez(7), sym::casez(8), sym::casez(9));
    let (lx, hx, ly, hy) = if span == 0 {
        (1, w as u8 + 1, 1, h as u8 + 1)
    } else {
        (x0 as u8, (x0 + span - 1) as u8, y0 as u8, (y0 + span - 1) as u8)
    };
    let point = || (sym::u8(lx, hx), sym::u8(ly, hy));
    let mut root = vec![];
    let mut b = B::new(h, w);
    let mut bad = false;
    if notes & 1 != 0 {
        root.push(note(kind));
    }
    root.push(SgfToken::Size(w as u32, h as u32));
    for _ in 0..ns {
        let (x, y) = point();
        let col = sym::u8(1, 2);
        bad |= !place(&mut b, x, y, col);
        root.push(SgfToken::Add { color: sgf(col), coordinate: (x, y) });
    }
    sym::assume(bad | b.legal());
    let mut nodes = vec![GameNode { tokens: root }];
    let mut s = Sim::new(b, 1, false);
    let mut twice = false;
    for k in 0..nm {
        let col = sym::u8(1, 2);
        let pass = sym::boolean();
        let (x, y) = point();
        let mut t = vec![];
        if (notes >> (2 * k + 1)) & 1 != 0 {
            t.push(note(kind));
        }
        t.push(SgfToken::Move { color: sgf(col), action: if pass { Action::Pass } else { Action::Move(x, y) } });
        if (notes >> (2 * k + 2)) & 1 != 0 {
            t.push(note(kind));
        }
        nodes.push(GameNode { tokens: t });
        if k > 0 && col != s.turn {
            // the other player passed in between
            s.pass();
            twice = true;
        }
        // what follows two passes is not specified here
        sym::assume(bad | (s.passes < 2));
        s.turn = col;
        if pass {
            s.pass();
        } else {
            let mut sel = [false; MAX];
            let mut free = false;
            for p in 0..h * w {
                sel[p] = ((p / w) as u8 + 1 == y) & ((p % w) as u8 + 1 == x);
                free |= sel[p] & (s.b.c[p] == 0);
            }
            bad |= !free;
            let p = s.look(&sel);
            // a suicide under rules that forbid it is not specified here
            sym::assume(bad | !p.suicide);
            s.apply(&p);
        }
    }
    let r = if split == 0 {
        import(nodes)
    } else {
        let rest = nodes.split_off(split);
        let (x, y) = point();
        let col = sym::u8(1, 2);
        let side = GameNode { tokens: vec![SgfToken::Move { color: sgf(col), action: Action::Move(x, y) }] };
        let pass = GameNode { tokens: vec![SgfToken::Move { color: sgf(3 - col), action: Action::Pass }] };
        let tree = |nodes| GameTree { nodes, variations: vec![] };
        import_tree(GameTree { nodes, variations: vec![tree(rest), tree(vec![side]), tree(vec![pass.clone(), pass])] })
    };
    sym::check(r.is_err() == bad, 1);
    sym::observe(1, bad as u64);
    if let Ok(g) = r {
        sym::check(g.size() == (h as u8, w as u8), 2);
        sym::check(same(&g, &s.b), 3);
        if nm > 0 {
            sym::check(codec(g.turn()) == s.turn, 4);
        }
        let pr = g.prisoners();
        sym::check((pr.0 == s.pr.0) & (pr.1 == s.pr.1), 5);
        sym::check(g.is_over() == (s.passes >= 2), 6);
        sym::cover(twice, 1);
        sym::cover(s.pr.0 + s.pr.1 > 0, 2);
    }
    sym::cover(bad, 3);
}
/// Every size a file can state, with one setup stone and one move.   cases: which (0 size only,
/// 1 setup stone, 2 move)
pub fn sizes() {
    let what = sym::case(0);
    let (top, far) = if what == 0 { (600, 1) } else { (20, 21) };
    let (x, y) = (sym::u32(0, top), sym::u32(0, top));
    let (cx, cy) = (sym::u8(1, far), sym::u8(1, far));
    let mut nodes = vec![GameNode { tokens: vec![SgfToken::Size(x, y)] }];
    if what == 1 {
        nodes[0].tokens.push(SgfToken::Add { color: C::White, coordinate: (cx, cy) });
    }
    if what == 2 {
        // `tt` is a pass in some files
        sym::assume((cx != 20) | (cy != 20));
        nodes.push(GameNode { tokens: vec![SgfToken::Move { color: C::White, action: Action::Move(cx, cy) }] });
    }
    let size = (x >= 1) & (x <= 19) & (y >= 1) & (y <= 19);
    let on = (cx as u32 <= x) & (cy as u32 <= y);
    let r = import(nodes);
    sym::check(r.is_ok() == (size & (on | (what == 0))), 1);
    if let Ok(g) = r {
        sym::check((g.size().0 as u32 == y) & (g.size().1 as u32 == x), 2);
        if what > 0 {
            sym::check(code(g.get_color((cy - 1, cx - 1))) == 2, 3);
            sym::check(g.number_of_stones() == (0, 1), 4);
            sym::check(codec(g.turn()) == 1, 5);
        }
        sym::cover(x != y, 1);
    }
    sym::cover(!size, 2);
}
/// The header.  cases: properties present (1 komi, 2 rule, 4 handicap, 8 result, 16 game, 32 player to
/// move, 64 a first move), order (0 as listed, 1 reversed), stones
pub fn header() {
    let m = sym::casez(0);
    let rev = sym::case(1) == 1;
    let mut b = B::new(3, 2);
    let on = |k: usize| m & k != 0;
    let mut t = vec![SgfToken::Size(2, 3)];
    let mut bad = false;
    let mut komi = (15, 7.5f32);
    let mut jap = false;
    let mut ha = 0;
    let mut re = 0;
    let mut pl = 0;
    if on(2) {
        let k = sym::u8(0, 4);
        jap = k == 1;
        bad |= k > 1;
        if jap {
            komi = (13, 6.5);
        }
        t.push(SgfToken::Rule(match k {
            0 => RuleSet::Chinese,
            1 => RuleSet::Japanese,
            2 => RuleSet::AGA,
            3 => RuleSet::NZ,
            _ => RuleSet::GOE,
        }));
    }
    if on(1) {
        let k = sym::u8(0, 15) as usize;
        komi = KOMI[k];
        t.push(SgfToken::Komi(komi.1));
    }
    if on(4) {
        ha = sym::u8(0, 9);
        t.push(SgfToken::Handicap(ha as u32));
    }
    let mut half = 0;
    if on(8) {
        re = sym::u8(1, 9);
        half = sym::u8(1, 200);
        let p = half as f32 / 2.0;
        t.push(SgfToken::Result(match re {
            1 => Outcome::WinnerByResign(C::Black),
            2 => Outcome::WinnerByResign(C::White),
            3 => Outcome::WinnerByTime(C::Black),
            4 => Outcome::WinnerByForfeit(C::White),
            5 => Outcome::WinnerByPoints(C::Black, p),
            6 => Outcome::WinnerByPoints(C::White, p),
            8 => Outcome::WinnerByTime(C::White),
            9 => Outcome::WinnerByForfeit(C::Black),
            _ => Outcome::Draw,
        }));
    }
    if on(16) {
        let k = sym::u8(1, 40);
        bad |= k != 1;
        t.push(SgfToken::Game(if k == 1 { sgf_parser::Game::Go } else { sgf_parser::Game::Other(k) }));
    }
    if on(32) {
        pl = sym::u8(1, 3);
        bad |= pl == 3;
        let v = sym::u8(0, 0);
        let _ = v;
        let x = if pl == 1 {
            "B"
        } else if pl == 2 {
            "W"
        } else {
            "X"
        };
        t.push(SgfToken::Unknown(("PL".to_string(), x.to_string())));
    }
    for k in 0..sym::casez(2) {
        b.c[k] = 1 + (k % 2) as u8;
        t.push(SgfToken::Add { color: sgf(b.c[k]), coordinate: ((k % 2) as u8 + 1, (k / 2) as u8 + 1) });
    }
    if rev {
        t.reverse();
    }
    let mut nodes = vec![GameNode { tokens: t }];
    let mut turn = if pl != 0 {
        pl
    } else if ha > 0 {
        2
    } else {
        1
    };
    if on(64) {
        let col = sym::u8(1, 2);
        turn = 3 - col;
        b.c[5] = col;
        nodes.push(GameNode { tokens: vec![SgfToken::Move { color: sgf(col), action: Action::Move(2, 3) }] });
    }
    let r = import(nodes);
    sym::check(r.is_err() == bad, 1);
    sym::observe(1, bad as u64);
    if let Ok(g) = r {
        sym::check(g.size() == (3, 2), 2);
        sym::check(same(&g, &b), 3);
        sym::check(g.komi() == komi.1, 4);
        sym::check(codec(g.turn()) == turn, 5);
        sym::check(g.is_over() == (re != 0), 6);
        let p = half as f32 / 2.0;
        let want = match re {
            0 => None,
            1 | 2 => Some(EndGame::WinnerByResign(color(re))),
            3 => Some(EndGame::WinnerByTime(color(1))),
            4 => Some(EndGame::WinnerByForfeit(color(2))),
            5 => Some(EndGame::WinnerByScore(color(1), p)),
            6 => Some(EndGame::WinnerByScore(color(2), p)),
            8 => Some(EndGame::WinnerByTime(color(2))),
            9 => Some(EndGame::WinnerByForfeit(color(1))),
            _ => Some(EndGame::Draw),
        };
        sym::check(g.outcome() == want, 7);
        let ru = if jap { JAPANESE } else { CHINESE };
        sym::check(g.calculate_score() == g.calculate_score_by(ru.flag_score), 8);
        for p in 0..6 {
            let at = ((p / 2) as u8, (p % 2) as u8);
            sym::check(g.check_point(at) == g.check_point_by(at, ru.flag_illegal), 9);
        }
        sym::cover(jap, 1);
        sym::cover(turn == 2, 2);
        let _ = (IllegalRules::all(), ScoreRules::all());
    }
    sym::cover(bad, 3);
}
