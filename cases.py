"""Which cases decide which property, per tier, and the known findings.

A case is an exported harness (`h_...`, harness/src) plus concrete parameters; all its other inputs are
symbolic.  expect.json (written by `run.py ID --calibrate` on the unchanged tree) records for each case how
long it took and which of its `cover` statements can be reached; a case without an entry there is not run.
"""
import json
import os

ASSUME = [
    "rustc's LLVM IR (opt-level 1, overflow checks on) means what the compiled crate does",
    "allocation succeeds; std HashMap/HashSet, indexmap::IndexSet and sgf_parser::parse are replaced by models (stubs/), "
    "whose agreement with the real ones is exercised by the validated samples",
    "nothing is claimed outside the stated bounds",
]

KNOWN = {}

V = os.path.dirname(os.path.abspath(__file__))


def W(h, w, order=0, r0=0, c0=0, wh=0, ww=0, bg=0):
    """window: board size, order in which the stones are pushed, the symbolic window (0: all), what surrounds it"""
    return [h, w, order, r0, c0, wh, ww, bg]


def scene(win, start, flags, *acts):
    """start 0: any legal position of the window, 1: empty, >=2: fixed opening.  flags: IllegalRules bits, 16 suicide
    or not, 32 all; +64*ScoreRules bits.  acts: cell, 253 any cell or pass, 254 pass, 255 any cell"""
    return win + [start, flags, len(acts)] + list(acts)


ANY, PASS, ANYP = 255, 254, 253


def K(entry, case, **kw):
    return dict(entry="h_" + entry, case=list(case), **kw)


TINY = [W(1, 1), W(1, 2), W(2, 1), W(1, 3), W(3, 1), W(2, 2)]
LINES = [W(1, 5), W(5, 1), W(1, 8, 2), W(8, 1, 3)]
SMALL = [W(2, 3), W(3, 2, 1), W(2, 4, 2), W(4, 2)]
# full boards that need a fixed point (or more time)
MID = [W(3, 3), W(3, 3, 4), W(2, 5), W(5, 2, 1)]
BIG = [W(3, 4, 1), W(4, 3, 5), W(2, 6), W(6, 2), W(1, 12)]
# windows of larger boards: corners, edges, middle, far rows, non-square
CORNERS = [
    W(19, 19, 0, 0, 0, 2, 3, 1), W(19, 19, 1, 17, 16, 2, 3, 2), W(19, 19, 2, 16, 0, 3, 2, 3),
    W(19, 19, 0, 0, 17, 3, 2, 4), W(9, 9, 0, 7, 6, 2, 3, 1), W(13, 13, 3, 10, 11, 3, 2, 2),
    W(5, 9, 0, 3, 6, 2, 3, 2), W(9, 5, 0, 6, 3, 3, 2, 1), W(3, 19, 1, 1, 16, 2, 3, 1), W(19, 2, 0, 16, 0, 3, 2, 0),
]
EDGES = [
    W(19, 19, 1, 13, 0, 3, 2, 1), W(19, 19, 0, 17, 13, 2, 3, 1), W(9, 9, 4, 0, 3, 2, 3, 2), W(7, 4, 0, 2, 2, 3, 2, 1),
    W(4, 7, 0, 2, 2, 2, 3, 2),
]
MIDDLE = [
    W(19, 19, 0, 9, 9, 2, 3, 5), W(9, 9, 0, 4, 3, 3, 2, 6), W(13, 13, 1, 5, 5, 2, 3, 7), W(5, 5, 2, 1, 1, 2, 3, 1),
    W(19, 19, 3, 14, 12, 3, 2, 0), W(6, 8, 2, 2, 2, 2, 3, 3),
]
WIN3 = [
    W(19, 19, 0, 0, 0, 3, 3, 1), W(19, 19, 2, 16, 16, 3, 3, 2), W(9, 9, 0, 6, 0, 3, 3, 0), W(13, 13, 1, 0, 10, 3, 3, 4),
    W(5, 5, 3, 1, 1, 3, 3, 5), W(5, 9, 0, 2, 6, 3, 3, 1), W(9, 5, 1, 6, 2, 3, 3, 2), W(4, 4, 0, 0, 0, 3, 3, 2),
]
WINS = CORNERS + EDGES + MIDDLE
# long groups that share their last liberties
ARMS = [W(7, 7, 0, 3, 3, 1, 2, 11), W(5, 7, 1, 1, 3, 2, 2, 12), W(9, 9, 0, 4, 4, 2, 1, 12), W(6, 9, 2, 0, 4, 2, 2, 11), W(19, 19, 0, 9, 9, 1, 2, 11),
        W(19, 19, 1, 8, 0, 2, 2, 12)]
# the rest of the board is one huge group / many small groups / stripes
GIANT = [W(19, 19, 0, 9, 9, 2, 2, 6), W(19, 19, 1, 0, 0, 1, 3, 7), W(19, 19, 1, 17, 16, 2, 3, 6), W(19, 18, 3, 16, 0, 3, 2, 7)]
SMALLER = [W(9, 9, 1, 0, 6, 2, 3, 8), W(9, 9, 0, 4, 3, 2, 3, 9), W(7, 8, 2, 5, 0, 2, 3, 6), W(8, 7, 0, 2, 2, 2, 3, 8), W(7, 9, 3, 2, 7, 3, 2, 9), W(6, 6, 1, 2, 2, 2, 2, 7)]
CROWDED = SMALLER + [W(19, 19, 0, 9, 9, 2, 3, 8), W(19, 19, 2, 16, 0, 3, 2, 9), W(13, 13, 3, 5, 5, 2, 3, 8), W(19, 19, 1, 0, 8, 2, 3, 8),
                     W(19, 19, 0, 8, 9, 2, 2, 10), W(19, 19, 2, 17, 0, 2, 2, 10), W(19, 19, 1, 4, 18, 3, 1, 10)] + ARMS


# games that have gone on for a while: a fixed opening (1000 * seed + moves) inside the window
LONGS = [
    (W(1, 4), 1030), (W(1, 5), 2050), (W(2, 2), 1060), (W(2, 2), 2131), (W(2, 3), 1100), (W(2, 3), 2201), (W(3, 2), 3150), (W(3, 3), 1080),
    (W(3, 3), 2300), (W(3, 3), 3201), (W(2, 5), 1160), (W(3, 4), 1200), (W(3, 4), 2121), (W(4, 4), 1261), (W(5, 5), 1300), (W(5, 5), 2041),
    (W(19, 19, 0, 8, 8, 3, 3, 0), 1060), (W(19, 19, 0, 17, 16, 2, 3, 2), 1040), (W(9, 9, 0, 0, 6, 3, 3, 1), 2090), (W(9, 9, 0, 0, 0, 9, 9, 0), 1200),
    (W(2, 2), 1999), (W(2, 3), 2999), (W(1, 5), 3990), (W(3, 3), 1990),
]


def longs(flags, *acts, upto=99, start=0):
    """games after a long opening; `flags` 0 allows suicides in the opening, too"""
    return [scene(w, st, f, *acts) for w, st in LONGS for f in flags if start < cells(w) <= upto]


def tried():
    """games played with try_play under the rules that are on"""
    out = [scene(w, 0, 512 + f, ANYP) for w in [W(1, 4), W(2, 3), W(1, 5)] for f in (32, 7)]
    out += [scene(w, 0, 512 + 7, ANYP, ANYP) for w in [W(1, 3), W(2, 2), W(1, 4), W(1, 5), W(2, 3)]]
    out += [scene(w, 1, 512 + f, *[ANYP] * n) for w in [W(1, 4), W(2, 2), W(1, 5), W(2, 3)] for f, n in [(7, 4), (0, 3), (4, 5), (7, 6), (1, 5)]]
    return out + [scene(w, st, 512 + f, ANYP, ANYP) for w, st in LONGS[:12] for f in (5, 7)]


def used(wins):
    """the same windows on a board whose inner tables have been used before"""
    return [[w[0], w[1], w[2] + 8] + w[3:] for w in wins]


def cells(w):
    return (w[5] * w[6]) or w[0] * w[1]


def c01():
    out = [K("c01_move", w + [ANY]) for w in TINY + LINES + SMALL]
    out += [K("c01_move", w + [p]) for w in MID + BIG for p in range(cells(w))]
    out += [K("c01_move", w + [ANY]) for w in WINS]
    out += [K("c01_move", w + [p]) for w in WIN3 for p in (0, 1, 4, 5, 8)]
    out += [K("c01_move", w + [ANY]) for w in used(SMALL + CORNERS)]
    for p in (0, 1, 2, 4):
        out += [K("c01_after", c + [p]) for c in longs((0, 16), ANYP) + longs((0, 16), ANYP, ANYP, upto=9) if p < cells(c)]
        out += [K("c01_after", scene(w, 0, 16, ANYP) + [p]) for w in [W(1, 4), W(2, 3), W(3, 2, 2), W(1, 5)] if p < cells(w)]
    out += [K("c01_move", w + [ANY]) for w in GIANT + CROWDED]
    return out


def c02():
    out = []
    for w in TINY + LINES + SMALL + MID + WINS + WIN3:
        out += [K("c02_push", w + [0]), K("c02_push", w + [1])]
    for w in TINY + LINES + SMALL + WINS:
        for p in range(cells(w)):
            out += [K("c02_move", w + [p, 0])]
        for p in (0, cells(w) // 2):
            out += [K("c02_move", w + [p, 1])]
    for w in MID:
        for p in (0, 1, 4, 7):
            out += [K("c02_move", w + [p, 0]), K("c02_move", w + [p, 1])]
    for w in used(LINES + SMALL + WINS):
        out += [K("c02_push", w + [0]), K("c02_push", w + [1])]
    for part in (0, 1):
        out += [K("c02_game", c + [part]) for c in longs((0, 16), ANYP) + longs((0, 16), ANYP, ANYP, upto=9)]
        out += [K("c02_game", scene(w, 0, 16, ANYP, ANYP) + [part]) for w in [W(2, 2), W(1, 4), W(2, 3), W(1, 5)]]
    for w in SMALLER:
        out += [K("c02_push", w + [0]), K("c02_push", w + [1])]
        out += [K("c02_move", w + [p, 0]) for p in range(cells(w))]
    for w in GIANT + CROWDED:
        if w not in SMALLER:
            out += [K("c02_push", w + [0]), K("c02_push", w + [1])]
            out += [K("c02_move", w + [p, part]) for p in range(cells(w)) for part in (0, 1)]
    return out


def c03():
    out = [K("c03_keys", []), K("c03_sizes", [])]
    for w in TINY + LINES + SMALL + MID + CORNERS:
        for o in (1, 2):
            out.append(K("c03_orders", w + [o, 0]))
        out.append(K("c03_orders", w + [3, cells(w) - 1]))
    for w in TINY + SMALL[:2] + [W(1, 5)] + CORNERS[:2]:
        out.append(K("c03_pair", w))
    for w in TINY[1:] + LINES + SMALL:
        out.append(K("c03_played", scene(w, 0, 16, ANY)))
    for w in SMALL[:2] + [W(2, 2), W(1, 4), W(1, 5)]:
        out.append(K("c03_played", scene(w, 0, 16, ANYP, ANYP)))
    for w in WINS:
        for p in (0, 2, 5):
            out.append(K("c03_played", scene(w, 0, 16, p)))
    for w in [W(2, 2), W(1, 4), W(2, 3), W(1, 3)]:
        out.append(K("c03_played", scene(w, 1, 16, ANYP, ANYP, ANYP, ANYP)))
    out.append(K("c03_played", scene(W(2, 2), 1, 16, *[ANYP] * 6)))
    out += [K("c03_played", c) for c in tried()]
    out += [K("c03_played", c) for c in longs((0, 16), ANYP) + longs((0, 16), ANYP, ANYP, upto=9)]
    for w in used(SMALL + CORNERS):
        out.append(K("c03_orders", w + [1, 0]))
    for w in GIANT + CROWDED:
        out += [K("c03_orders", w + [1, 0])]
        out += [K("c03_played", scene(w, 0, 16, p)) for p in (0, min(3, cells(w) - 1))]
    return out


def c04():
    out = [K("c04_all", w + [ANY]) for w in TINY + LINES + SMALL + WINS]
    out += [K("c04_all", w + [p]) for w in MID + BIG for p in range(cells(w))]
    out += [K("c04_all", w + [p]) for w in WIN3 for p in (0, 1, 4, 5, 8)]
    out += [K("c04_all", w + [ANY]) for w in used(SMALL + CORNERS)]
    out += [K("c04_after", c + [ANY]) for c in longs((0, 16), ANYP) + longs((0, 16), ANYP, ANYP, upto=9)]
    out += [K("c04_after", scene(w, 0, 16, ANYP) + [ANY]) for w in [W(2, 2), W(1, 4), W(2, 3), W(1, 5)]]
    out += [K("c04_all", w + [ANY]) for w in GIANT + CROWDED]
    return out


# a ko on the left/right of the window
def c05():
    out = []
    for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(4, 1), W(1, 5), W(2, 3), W(3, 2, 2)]:
        for a in ((ANY,), (ANYP, ANYP), (ANY, PASS, ANY), (ANYP, ANYP, ANYP)):
            for f in (16, 1, 3):
                out.append(K("c05_after", scene(w, 0, f, *a)))
    for w in MID[:2] + [W(2, 4), W(4, 2), W(2, 5)]:
        for p in range(cells(w)):
            out.append(K("c05_after", scene(w, 0, 16, p)))
    for w in WINS:
        for p in range(6):
            out.append(K("c05_after", scene(w, 0, 16, p)))
        out.append(K("c05_after", scene(w, 0, 16, 1, PASS, 4)))
    for w in [W(2, 2), W(1, 4), W(2, 3)]:
        out.append(K("c05_after", scene(w, 1, 16, *[ANYP] * 4)))
        out.append(K("c05_after", scene(w, 1, 16, *[ANYP] * 5)))
    for w in [W(9, 9, 0, 0, 0, 2, 3, 0), W(19, 19, 0, 17, 16, 2, 3, 0)]:
        for st in (6, 12):
            out.append(K("c05_after", scene(w, st, 16, ANYP, ANYP)))
    out += [K("c05_after", c) for c in tried()]
    out += [K("c05_after", c) for c in longs((0, 16), ANYP) + longs((16,), ANYP, ANYP, upto=16)]
    out += [K("c05_after", scene(w, 0, 16, p)) for w in GIANT + CROWDED for p in range(cells(w))]
    return out


def c06():
    out = []
    for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3), W(3, 2, 2)]:
        for a in ((), (ANY,), (ANYP, ANYP), (ANYP, ANYP, ANYP)):
            for f in (16, 2, 3):
                out.append(K("c06_after", scene(w, 0, f, *a)))
    for n in (4, 5, 6, 7, 8):
        for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
            for f in (0, 4):
                out.append(K("c06_after", scene(w, 1, f, *[ANYP] * n)))
    for w in WINS:
        for p in (0, 2, 5):
            out.append(K("c06_after", scene(w, 0, 16, p)))
        out.append(K("c06_after", scene(w, 0, 16, 1, PASS, 4)))
    for w in [W(9, 9, 0, 0, 0, 2, 3, 0), W(19, 19, 0, 17, 16, 2, 3, 0), W(9, 9, 1, 2, 6, 3, 2, 0)]:
        for st in (6, 12):
            out.append(K("c06_after", scene(w, st, 16, ANYP, ANYP)))
            out.append(K("c06_after", scene(w, st, 0, ANYP, ANYP, ANYP)))
    out += [K("c06_after", c) for c in tried()]
    out += [K("c06_after", c) for c in longs((0, 4, 16)) + longs((0, 16), ANYP) + longs((0, 16), ANYP, ANYP, upto=9)]
    out += [K("c06_after", scene(w, 0, 16, p)) for w in GIANT + CROWDED for p in range(0, cells(w), 2)]
    for w in [W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
        out += [K("c06_direct", scene(w, 0, 16, *a)) for a in ((), (ANY,), (ANYP, ANYP))]
        out += [K("c06_direct", scene(w, 1, 0, *[ANYP] * n)) for n in (3, 5)]
    out += [K("c06_direct", scene(w, 0, 16, p)) for w in WINS for p in (1, 4)]
    out += [K("c06_direct", c) for c in longs((0,)) + longs((0,), ANYP, upto=9)]
    return out


def c07():
    out = []
    for w in TINY[1:] + [W(1, 5), W(2, 3), W(3, 2, 1)] + WINS:
        out.append(K("c07_lists", scene(w, 0, 32)))
    for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
        for f in (32, 16, 7, 3, 12):
            out.append(K("c07_lists", scene(w, 0, f, ANYP)))
        for n in (2, 3, 4):
            out.append(K("c07_lists", scene(w, 1, 32, *[ANYP] * n)))
    for w in TINY[1:] + SMALL[:2] + [W(1, 5)] + WINS:
        for p in {0, cells(w) // 2, cells(w) - 1}:
            out.append(K("c07_verdict", scene(w, 0, 32) + [p]))
            out.append(K("c07_tried", scene(w, 0, 32) + [p]))
    for w in [W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
        for p in range(cells(w)):
            out.append(K("c07_verdict", scene(w, 0, 32, ANYP) + [p]))
            out.append(K("c07_verdict", scene(w, 0, 16, ANYP) + [p]))
            out.append(K("c07_verdict", scene(w, 0, 7, ANYP, ANYP) + [p]))
            out.append(K("c07_verdict", scene(w, 1, 32, ANYP, ANYP, ANYP) + [p]))
            out.append(K("c07_tried", scene(w, 0, 16, ANYP) + [p]))
            out.append(K("c07_tried", scene(w, 0, 7, ANYP) + [p]))
            out.append(K("c07_tried", scene(w, 1, 32, ANYP, ANYP, ANYP) + [p]))
    out += [K("c07_lists", c) for c in longs((32, 0), ANYP)]
    for p in (0, 1, 3):
        out += [K(e, c + [p]) for e in ("c07_verdict", "c07_tried") for c in longs((32, 7), ANYP)]
    out += [K("c07_lists", scene(w, 0, 32)) for w in GIANT + CROWDED]
    out += [K(e, scene(w, 0, 32) + [p]) for e in ("c07_verdict", "c07_tried") for w in GIANT + CROWDED for p in (0, min(3, cells(w) - 1))]
    return out


def c08():
    out = []
    for h, w in [(5, 5), (9, 9), (3, 7), (19, 19), (13, 5)]:
        for n in (3, 4, 5):
            out.append(K("c08_machine", [h, w, n]))
    for n in (6, 7, 8):
        out.append(K("c08_machine", [9, 9, n]))
    return out


def c09():
    out = []
    for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3), W(3, 2, 2), W(1, 5)]:
        for a in ((ANY,), (ANYP, ANYP), (ANYP, ANYP, ANYP)):
            out.append(K("c09_after", scene(w, 0, 16, *a)))
    for n in (4, 5, 6, 7, 8):
        for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
            out.append(K("c09_after", scene(w, 1, 16, *[ANYP] * n)))
    for w in MID[:2] + [W(2, 4), W(4, 2), W(2, 5)]:
        for p in range(cells(w)):
            out.append(K("c09_after", scene(w, 0, 16, p)))
    for w in WINS:
        for p in range(6):
            out.append(K("c09_after", scene(w, 0, 16, p)))
        out.append(K("c09_after", scene(w, 0, 16, 1, 4)))
        out.append(K("c09_after", scene(w, 0, 16, ANYP, ANYP)))
    out += [K("c09_after", c) for c in tried()]
    out += [K("c09_after", c) for c in longs((0, 16), ANYP, ANYP) + longs((0,), ANYP, ANYP, ANYP, upto=6)]
    out += [K("c09_after", scene(w, 0, 16, ANY)) for w in GIANT + CROWDED]
    out += [K("c09_after", scene(w, 0, 16, ANYP, ANYP)) for w in GIANT + CROWDED]
    return out


def c10():
    out = []
    for w in TINY + [W(2, 3), W(3, 2, 1), W(1, 5)] + WINS:
        out.append(K("c10_score", scene(w, 0, 16) + [0, 7]))
    for w in [W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
        out.append(K("c10_score", scene(w, 0, 16, ANY) + [0, 3]))
        out.append(K("c10_score", scene(w, 0, 16, ANY, ANY) + [2, 2]))
    for w in TINY + [W(2, 3), W(3, 2, 1)] + SMALLER:
        out.append(K("c10_score", scene(w, 0, 16) + [8, 15]))
    for w in [W(2, 2), W(2, 3), W(1, 5)] + WINS[:6]:
        out.append(K("c10_outcome", scene(w, 0, 64 * 7 + 16, ANY) + [8, 15]))
    for sf in range(8):
        out.append(K("c10_outcome", scene(W(2, 2), 0, 64 * sf + 16, ANY) + [0, 7]))
        out.append(K("c10_outcome", scene(W(2, 3), 0, 64 * sf, ANY) + [0, 7]))
        out.append(K("c10_outcome", scene(W(1, 4), 0, 64 * sf, ANYP, ANYP) + [0, 7]))
    for w in WINS:
        out.append(K("c10_outcome", scene(w, 0, 64 * 7, 1) + [0, 3]))
        out.append(K("c10_outcome", scene(w, 0, 64 * 3 + 4, 4) + [0, 3]))
    for w in WIN3 + MID:
        out.append(K("c10_score", scene(w, 0, 0) + [2, 3]))
    out += [K("c10_score", c + [2, 3]) for c in longs((0, 16), ANYP)]
    out += [K("c10_outcome", c + [0, 7]) for c in longs((64 * 7, 64 * 5 + 16, 64 * 3, 64), ANYP)]
    out += [K("c10_score", scene(w, 0, 16, ANY) + [0, 7]) for w in GIANT + CROWDED]
    out += [K("c10_outcome", scene(w, 0, 64 * 7, ANY) + [0, 3]) for w in GIANT + CROWDED]
    return out


def c11():
    out = []
    for w in TINY + LINES + SMALL + MID + WINS + WIN3 + BIG:
        out.append(K("c11_territories", w))
    for w in TINY + [W(1, 5)] + SMALL + MID + CORNERS + EDGES + MIDDLE:
        for p in sorted({0, cells(w) // 2, cells(w) - 1}):
            out.append(K("c11_region", w + [p]))
    for w in TINY + [W(1, 5)] + SMALL[:2] + WINS[:4] + MIDDLE:
        for col in (0, 1, 2):
            out.append(K("c11_partition", w + [col]))
    for w in used(SMALL + CORNERS[:4]):
        out.append(K("c11_territories", w))
    for w in GIANT + CROWDED:
        out.append(K("c11_territories", w))
        out += [K("c11_region", w + [p]) for p in (0, cells(w) - 1)]
    out += [K("c11_partition", w + [col]) for w in SMALLER for col in (0, 1, 2)]
    return out


def c12():
    out = []
    for w in range(1, 20):
        out.append(K("c12_points", [1, 19, w, w]))
        out.append(K("c12_around", [1, 19, w, w]))
    for h in range(1, 20):
        out.append(K("c12_points", [h, h, 1, 19]))
        out.append(K("c12_around", [h, h, 1, 19]))
    for last in range(4):
        out.append(K("c12_capture", [1, 19, 1, 19, last]))
    for a, b in [(1, 1), (2, 2), (3, 3), (5, 5), (7, 7), (19, 19)]:
        out.append(K("c12_listed", [1, 19, a, b]))
    return out


def c13():
    out = []
    for w in TINY + LINES + SMALL + WINS + MID + WIN3:
        out.append(K("c13_arrays", w))
        out.append(K("c13_text", w))
        for part in range(9):
            out.append(K("c13_listings", w + [part]))
        if w[0] == w[1]:
            out.append(K("c13_rebuilt", w))
    for w in used(LINES + SMALL + CORNERS):
        out.append(K("c13_arrays", w))
        for part in (0, 2, 4, 7):
            out.append(K("c13_listings", w + [part]))
    for w in GIANT + CROWDED:
        out += [K("c13_arrays", w), K("c13_text", w)] + [K("c13_listings", w + [part]) for part in range(9)]
        if w[0] == w[1]:
            out.append(K("c13_rebuilt", w))
    return out


def c14():
    out = [K("c14_sizes", [0]), K("c14_presets", [0])]
    for h, w in [(1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 1)]:
        for n in [(0, 0, 0), (1, 0, 0), (0, 1, 1), (1, 1, 1), (0, 0, 2), (2, 0, 1), (0, 2, 1), (1, 1, 2), (0, 0, 3), (0, 1, 3)]:
            out.append(K("c14_configured", [h, w] + list(n) + [0, 0, 0, 0]))
    big = []
    # larger boards: fixed handicap stones, the others in a corner of the board (and beside it)
    for h, w in [(9, 9), (13, 13), (19, 19), (5, 9), (19, 7), (9, 19)]:
        for nf in (0, 2, 4, 5, 9):
            for r0, c0, span in [(0, 0, 2), (h - 2, w - 2, 3), (h - 2, 0, 3), (h // 2 - h // 4, w // 2 - w // 4, 2)]:
                for n in [(0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 2)]:
                    big.append(K("c14_configured", [h, w] + list(n) + [nf, r0, c0, span]))
    out += big[::5]
    return out


def c15():
    out = [K("c15_sizes", [k]) for k in range(3)]
    for m in range(1, 128):
        if bin(m).count("1") in (1, 2, 7, 6):
            for rev in (0, 1):
                out.append(K("c15_header", [m, rev, 2]))
    for h, w in [(1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2)]:
        for notes, ns, nm in [(0, 0, 1), (0, 1, 0), (0, 1, 1), (2, 1, 1), (31, 0, 2), (0, 1, 2), (6, 2, 1), (3, 1, 2), (0, 0, 3), (127, 1, 3), (0, 0, 4)]:
            out.append(K("c15_moves", [h, w, notes, ns, nm, 0, 0, 0, 0, 0]))
    for kind in range(1, 10):
        out.append(K("c15_moves", [2, 2, 127, 1, 2, kind, 0, 0, 0, 0]))
        out.append(K("c15_moves", [1, 3, 6, 0, 2, kind, 0, 0, 0, 0]))
    for h, w in [(1, 2), (2, 2), (2, 3)]:
        for ns, nm in [(1, 1), (0, 2), (1, 2), (0, 3)]:
            for split in range(1, nm + 1):
                out.append(K("c15_moves", [h, w, 4, ns, nm, 0, split, 0, 0, 0]))
    # larger boards: the points of a corner, and beside it
    for k, (h, w) in enumerate([(9, 9), (13, 13), (19, 19), (9, 13), (19, 5), (7, 19)]):
        for j, (x0, y0, span) in enumerate([(1, 1, 2), (w - 1, h - 1, 3), (1, h - 1, 3), (w - 1, 1, 3), (w // 2, h // 2, 2)]):
            for i, (ns, nm) in enumerate([(0, 1), (1, 1), (0, 2), (2, 1), (0, 3)]):
                if (i + j + k) % 2 == 0:
                    out.append(K("c15_moves", [h, w, 0, ns, nm, 0, 0, x0, y0, span]))
    return out


def c16():
    out = [K("c16_eye", w + [ANY]) for w in TINY + LINES + SMALL + MID + WINS + WIN3]
    out += [K("c16_eye", w + [p]) for w in BIG for p in range(cells(w))]
    out += [K("c16_eye", w + [ANY]) for w in used(MID + CORNERS)]
    out += [K("c16_eye", w + [ANY]) for w in CROWDED]
    return out


def c17():
    out = []
    for w in TINY[1:] + LINES + SMALL + WINS:
        for p in sorted({0, cells(w) // 2, cells(w) - 1}):
            out.append(K("c17_simulated", scene(w, 0, 16) + [p]))
    for w in [W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
        for p in sorted({0, cells(w) // 2, cells(w) - 1}):
            out.append(K("c17_simulated", scene(w, 0, 16, ANYP) + [p]))
            out.append(K("c17_simulated", scene(w, 1, 32, ANYP, ANYP, ANYP) + [p]))
    for w in MID:
        for p in (0, 1, 4, 7):
            out.append(K("c17_simulated", scene(w, 0, 16) + [p]))
    for p in (0, 1, 3):
        out += [K("c17_simulated", c + [p]) for c in longs((0, 16), ANYP)]
    out += [K("c17_simulated", scene(w, 0, 16) + [p]) for w in GIANT + CROWDED for p in range(0, cells(w), 2)]
    return out


def c18():
    out = []
    for lo, hi in [(0, 9), (350, 360), (58, 70), (120, 132), (180, 196), (252, 260), (315, 324)]:
        for n in (1, 2, 3):
            out.append(K("c18_liberties", [lo, hi, n]))
    out += [K("c18_liberties", [0, 360, 1]), K("c18_liberties", [0, 63, 2])]
    for lo, hi in [(0, 7), (3, 12), (60, 69), (124, 131), (188, 195), (252, 259), (300, 311), (353, 360)]:
        for f in (0, 1, 2, 120, 126, 248, 251, 255, 300, 351 - hi + lo):
            out.append(K("c18_dense", [lo, hi, f]))
    for lo in range(0, 353, 8):
        out += [K("c18_dense", [lo, lo + 7, f]) for f in sorted({0, lo, lo + 1})]
    for m, k in [(1, 1), (3, 1), (4, 2), (4, 3), (5, 3), (5, 4), (5, 5), (6, 4), (361, 2), (20, 3)]:
        out.append(K("c18_ring", [m, k]))
    return out


def c19():
    out = []
    for w in TINY[1:] + LINES + SMALL + WINS + MID:
        for p in sorted({0, cells(w) // 2, cells(w) - 1}):
            for j in (0, 1):
                out.append(K("c19_removed", w + [p, j]))
    for w in [W(3, 3), W(5, 5, 0, 1, 1, 3, 3, 0)]:
        for j in (2, 3):
            out.append(K("c19_removed", w + [4, j]))
    for w in used(LINES + SMALL + CORNERS):
        for p in sorted({0, cells(w) // 2, cells(w) - 1}):
            out.append(K("c19_removed", w + [p, 0]))
    for w in SMALLER:
        out += [K("c19_removed", w + [p, j]) for p in (0, cells(w) - 1) for j in (0, 1)]
    for w in GIANT + CROWDED:
        out += [K("c19_removed", w + [p, j]) for p in range(cells(w)) for j in (0, 1, 2)]
    return out


def c20():
    out = []
    for w in TINY + LINES + SMALL + MID + WINS + WIN3:
        out.append(K("c20_floating", w))
    for w in used(LINES + SMALL + CORNERS):
        out.append(K("c20_floating", w))
    out += [K("c20_floating", w) for w in GIANT + CROWDED]
    return out


def c21():
    out = []
    for w, m in [(W(2, 2), 60), (W(2, 3), 120), (W(3, 3), 120), (W(3, 3), 300), (W(3, 4), 200), (W(4, 4), 260), (W(5, 5), 300)]:
        for seed in (1, 2):
            out.append(K("c21_long", scene(w, 1, 2, ANY) + [m, seed]))
            out.append(K("c21_long", scene(w, 1, 0, ANYP, ANYP) + [m, seed]))
    for w, m in [(W(2, 2), 600), (W(2, 2), 1500), (W(1, 5), 1200), (W(2, 3), 900), (W(3, 2), 1600), (W(3, 3), 900), (W(4, 4), 900), (W(5, 5), 600),
                 (W(4, 5), 700), (W(6, 6), 400)]:
        for seed in (3, 4):
            out.append(K("c21_long", scene(w, 1, 2, ANY) + [m, seed]))
            out.append(K("c21_long", scene(w, 1, 0, ANYP, ANYP) + [m, seed]))
    out.append(K("c21_long", scene(W(9, 9), 1, 0, ANY) + [300, 1]))
    out.append(K("c21_long", scene(W(7, 7), 1, 0, ANY) + [260, 1]))
    out.append(K("c21_long", scene(W(19, 19, 0, 8, 8, 3, 3, 2), 1, 0, ANY) + [60, 1]))
    out.append(K("c21_long", scene(W(19, 19, 0, 8, 8, 3, 3, 0), 1, 0, ANY) + [60, 1]))
    return out


def c22():
    out = []
    for call in range(7):
        for b in ([5, 5, 7, 7], [1, 1, 1, 1], [9, 9, 9, 9], [3, 3, 8, 8]):
            out.append(K("c22_outside", b + [call, 255, 255, 0, 0], allow_panic=True))
        for b in ([19, 19, 19, 19], [2, 2, 19, 19], [19, 19, 3, 3], [13, 13, 18, 18], [17, 17, 16, 16]):
            for c in ([20, 255, 0, 0], [255, 20, 200, 0], [60, 20, 17, 0], [255, 255, 240, 240], [20, 60, 0, 0]):
                out.append(K("c22_outside", b + [call] + c, allow_panic=True))
        out.append(K("c22_outside", [1, 19, 1, 19, call, 21, 21, 0, 0], allow_panic=True))
        out.append(K("c22_outside", [3, 6, 4, 9, call, 12, 12, 0, 0], allow_panic=True))
        out.append(K("c22_outside", [3, 6, 4, 9, call, 9, 255, 0, 240], allow_panic=True))
    return out


def c23():
    out = []
    for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3), W(3, 2, 2), W(1, 5)]:
        for a in ((), (ANY,), (ANYP, ANYP), (ANYP, ANYP, ANYP)):
            out.append(K("c23_recorded", scene(w, 0, 16, *a)))
    for n in (3, 4, 5, 6):
        for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
            out.append(K("c23_recorded", scene(w, 1, 16, *[ANYP] * n)))
    for w in WINS:
        for p in (0, 2, 5):
            out.append(K("c23_recorded", scene(w, 0, 16, p)))
        out.append(K("c23_recorded", scene(w, 0, 16, 1, PASS, 4)))
    out += [K("c23_recorded", c) for c in tried()]
    out += [K("c23_recorded", c) for c in longs((0, 16), ANYP, upto=25)]
    for w, st in [(W(2, 2), 1030), (W(2, 3), 1040), (W(2, 3), 2040), (W(3, 3), 2040), (W(1, 5), 1020), (W(5, 5), 1040)]:
        out += [K("c23_recorded", scene(w, st, f, ANYP, ANYP)) for f in (0, 16)]
    out += [K("c23_recorded", scene(w, 0, 16, p)) for w in GIANT + CROWDED for p in (0, min(3, cells(w) - 1))]
    return out


def c24():
    out = []
    for w in TINY + [W(1, 4), W(1, 5), W(2, 3), W(3, 2, 1)] + WINS:
        out.append(K("c24_offered", scene(w, 0, 32)))
    for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3)]:
        for f in (32, 16, 7, 3):
            out.append(K("c24_offered", scene(w, 0, f, ANYP)))
        for n in (2, 3):
            out.append(K("c24_offered", scene(w, 1, 32, *[ANYP] * n)))
    out += [K("c24_offered", c) for c in longs((32, 7, 0), ANYP)]
    out += [K("c24_offered", scene(w, 0, 32)) for w in GIANT + CROWDED]
    return out


def c25():
    out = []
    for w in [W(1, 2), W(1, 3), W(2, 2), W(1, 4), W(2, 3), W(3, 2, 2), W(1, 5)]:
        for a in ((ANY,), (ANYP, ANYP)):
            out.append(K("c09_after", scene(w, 0, 16, *a)))
        out.append(K("c09_after", scene(w, 1, 16, ANYP, ANYP, ANYP)))
    for w in TINY + LINES + SMALL + WINS:
        out += [K("c02_push", w + [0])]
        for p in sorted({0, cells(w) // 2}):
            out += [K("c02_move", w + [p, 0])]
    for w in WINS:
        for p in (0, 2, 5):
            out.append(K("c09_after", scene(w, 0, 16, p)))
    for w in TINY + LINES + SMALL + CORNERS:
        out.append(K("c11_territories", w))
        out.append(K("c20_floating", w))
        for p in sorted({0, cells(w) // 2, cells(w) - 1}):
            out.append(K("c19_removed", w + [p, 0]))
    for lo, hi, n in [(0, 9, 2), (350, 360, 2), (120, 132, 2)]:
        out.append(K("c18_liberties", [lo, hi, n]))
    out.append(K("c18_ring", [5, 3]))
    out += [K("c09_after", c) for c in longs((0, 16), ANYP, ANYP)]
    out += [K("c02_game", c + [0]) for c in longs((0, 16), ANYP)]
    for w in used(SMALL + CORNERS):
        out += [K("c02_push", w + [0])]
        out.append(K("c19_removed", w + [0, 0]))
    for w in SMALLER:
        out += [K("c02_push", w + [0]), K("c02_move", w + [2, 0]), K("c19_removed", w + [0, 0])]
    for w in GIANT + CROWDED:
        out += [K("c02_push", w + [0]), K("c02_move", w + [1, 0]), K("c19_removed", w + [0, 0])]
    return out


def c26():
    # board, komi in half points, draws, simulations per move, passes before, rule flags
    out = []
    for w in [W(1, 1), W(1, 2), W(2, 1, 1), W(1, 3), W(3, 1, 1)]:
        for tail in ([0, 12, 1, 0, 5], [1, 16, 1, 0, 5], [0, 20, 1, 0, 7], [0, 14, 1, 1, 5], [0, 10, 1, 2, 5], [0, 14, 2, 0, 5],
                     [15, 12, 1, 0, 4], [0, 12, 1, 0, 1], [0, 14, 1, 0, 13], [0, 20, 2, 1, 7], [0, 24, 3, 0, 5]):
            out.append(K("c26_dead", w + tail))
    for w in [W(2, 2), W(1, 4), W(4, 1, 1), W(2, 3, 0, 0, 0, 1, 2, 3), W(2, 3, 0, 0, 0, 2, 1, 6), W(3, 3, 0, 1, 0, 1, 3, 3), W(1, 5, 0, 0, 1, 1, 3, 6),
              W(2, 4, 0, 0, 0, 1, 2, 3), W(3, 3, 0, 0, 0, 1, 2, 4), W(2, 5, 0, 0, 1, 1, 2, 4)]:
        for tail in ([0, 6, 1, 0, 5], [0, 8, 1, 1, 5], [0, 10, 1, 0, 5], [0, 6, 1, 2, 7], [0, 12, 1, 0, 7], [1, 12, 2, 0, 5], [0, 8, 1, 0, 1]):
            out.append(K("c26_dead", w + tail))
    # a position where both sides have a single move, over and over, without superko; and others
    ring = [1, 0, 1, 2, 1, 2, 0, 2, 0]
    swap = [(3 - x) % 3 for x in ring]
    for d in (2, 4, 6, 8):
        out.append(K("c26_ends", [3, 3, 1, 5, d, 3000] + ring))
        out.append(K("c26_ends", [3, 3, 2, 5, d, 3000] + swap))
        out.append(K("c26_ends", [3, 3, 2, 5, d, 3000, 2, 1, 0, 0, 2, 1, 2, 1, 0]))
        out.append(K("c26_ends", [3, 3, 1, 5, d, 3000] + [0] * 9))
        out.append(K("c26_ends", [2, 4, 1, 1, d, 3000] + [0] * 8))
        out.append(K("c26_ends", [4, 3, 2, 5, d, 3000] + [1, 2, 0] + ring))
        out.append(K("c26_ends", [2, 2, 1, 0, d, 3000, 1, 0, 2, 0]))
    return out


def c27():
    out = [K("c27_converted", [])]
    for w in TINY + LINES + SMALL + MID + WINS + CROWDED + used(SMALL):
        out += [K("c27_named", w), K("c27_placed", w)]
    return out


PROPS = {f"C{i:02d}": dict(all=globals()[f"c{i:02d}"], bounds="") for i in range(1, 28)}
PROPS["C20"]["feature"] = PROPS["C24"]["feature"] = "deadstones"
PROPS["C22"]["debug"] = "wrap"
PROPS["C25"].update(mods=["c02", "c09", "c11", "c18", "c19", "c20"], feature="deadstones", debug=True)

_WIN = ("positions: all positions (every group with a liberty) of whole boards of up to 12 points and of every line up to 1x12, and of "
        "2x3 to 3x3 windows at corners, edges and middles of boards up to 19x19 (square or not) with fixed surroundings; "
        "stones pushed in six fixed orders, on a fresh board or on one whose inner tables were used before (stones pushed, then removed); the exact boards and windows are the cases listed under coverage.cases")
_HIST = ("histories: from any such position 1 to 3 symbolic moves/passes (2 with whole windows free), from the empty board up to "
         "8 symbolic moves/passes on boards of at most 6 points; longer histories: fixed openings of 30 to 999 moves (past 255 prisoners of a colour) on boards from 1x4 to 19x19 followed "
         "by one or two symbolic moves/passes; games under the rules that are on (played with try_play): up to 6 actions")
PROPS["C27"]["mods"] = ["c03", "c27"]
PROPS["C26"].update(feature="deadstones", swap=("rand", "oxymcts"))
# enough for one case of each sort (see kind)
for _p in ("C02", "C06", "C07", "C25"):
    PROPS[_p]["quick_sum"] = 560.0
BOUNDS = {
    "C01": _WIN + "; one move at any (or each) cell, either colour, suicide on or off",
    "C02": _WIN + "; pushing in six orders, then one or two moves",
    "C03": _WIN + "; pairs of positions on boards up to 6 points; " + _HIST + "; keys: all 361 points x 2 colours and all sizes to 19x19",
    "C04": _WIN + "; one point, either colour",
    "C05": _WIN + "; " + _HIST,
    "C06": _WIN + "; " + _HIST,
    "C07": _WIN + "; all 16 rule sets; " + _HIST,
    "C08": "3 to 8 symbolic actions (pass, move on a free point, move on a taken point, resignation of either side, resumption) on five board sizes, all rule sets of suicide/ko/superko",
    "C09": _WIN + "; " + _HIST,
    "C10": _WIN + "; all 8 scoring rule sets, komi one of sixteen values from -100 to 361 (multiples of 1/64); " + _HIST,
    "C11": _WIN,
    "C12": "all board sizes 1x1 to 19x19, all points (no bound left on size or point); one stone, or the stones needed for one capture",
    "C13": _WIN,
    "C14": "boards up to 2x3, up to 3 setup/handicap stones and moves in all, each of them any coordinate near the board; boards up to 19x19 with up to 9 fixed "
           "handicap stones and up to 3 more symbolic stones/moves in a corner or the middle; all sizes, presets",
    "C15": "boards up to 3x2 (and the corners and middles of boards up to 19x19), up to 2 setup stones and 4 moves each with symbolic coordinates, variations "
           "after any move, nine kinds of notes, all subsets of seven other root properties; the tree given "
           "to the importer is symbolic, sgf_parser's own text parsing is outside",
    "C16": _WIN + "; one point, either colour",
    "C17": _WIN + "; one simulated move at a fixed cell; " + _HIST,
    "C18": "liberties: up to 3 operations on points of ranges covering 0..360 in pieces, and any subset of 8 to 12 points besides 0 to 352 fixed ones; rings of up to 6 stones (361 with 2 read)",
    "C19": _WIN + "; removal of the group of a fixed cell, then one move",
    "C20": _WIN,
    "C21": "fixed openings of 60 to 1600 moves (several generators) on boards from 2x2 to 19x19, followed by one or two symbolic moves/passes",
    "C22": "boards and coordinates: all sizes 1..19 with coordinates up to 21, sizes 3..6 x 4..9 up to 12, four sizes with coordinates up to 255 in both directions, five larger sizes with bands of rows or columns up to 255; one stone on the board; build without overflow checks",
    "C23": _WIN + "; " + _HIST,
    "C24": _WIN + "; " + _HIST,
    "C26": "boards up to 1x3, part of the boards up to 2x4; at most 24 random draws in all, 1 to 3 simulations per move; the search "
           "is any search over the legal moves and the draws any draws (stubs/oxymcts, stubs/rand); termination: seven positions up to 4x3, up to 8 "
           "free draws",
    "C27": _WIN + "; conversions: all coordinates and colours",
    "C25": _WIN + "; " + _HIST + "; debug-assertions build",
}
for _p, _b in BOUNDS.items():
    PROPS[_p]["bounds"] = _b

_F = os.path.join(V, "expect.json")
EXPECT = json.load(open(_F)) if os.path.exists(_F) else {}
# what the quick tier may spend: the longest case, and the sum over all cases (in seconds of one core)
QUICK_CASE, QUICK_SUM = 15.0, 400.0


def label(c):
    return f"{c['entry']} {','.join(map(str, c['case']))}"


def kind(c):
    """what sort of situation a case is about: the quick tier keeps at least one of each sort"""
    k = c["case"]
    if len(k) < 8:
        return c["entry"], len(k)
    h, w, order, r0, c0, wh, ww, bg, start, flags = (k + [0, 0])[:10]
    where = "whole" if not wh else (r0 == 0, r0 + wh == h, c0 == 0, c0 + ww == w, h * w > 81)
    wide = h * w > 300 and bg == 0  # hundreds of empty points
    part = k[8] if c["entry"] == "h_c13_listings" and (wide or bg == 6) else 0
    return (c["entry"], where, bg if bg >= 6 else 0, wide, part, order >= 8, 0 if start == 0 else 1 if start == 1 else 2 if start < 1000 else 3 + start % 1000 // 200,
            flags >= 512, len(k))


def cases(pid, tier):
    """thorough: everything calibrated; quick: the cheap ones, spread over the whole list"""
    ex = EXPECT.get(pid, {})
    todo, seen = [], set()
    for c in PROPS[pid]["all"]():
        l = label(c)
        if l in ex and l not in seen:
            seen.add(l)
            # seconds with one second of lemma checking (entries without "l" were timed with four)
            s = ex[l]["s"]
            c["cost"], c["covers"] = s if "l" in ex[l] or s < 4.05 else s - 3, ex[l]["covers"]
            todo.append(c)
    if tier == "quick":
        todo = [c for c in todo if c["cost"] <= QUICK_CASE]
        budget = PROPS[pid].get("quick_sum", QUICK_SUM)
        kinds = {}
        for c in todo:
            kinds.setdefault(kind(c), []).append(c)
        for v in kinds.values():
            v.sort(key=lambda c: c["cost"])
        spent = sum(c["cost"] + 0.15 for c in todo)
        while spent > budget:
            # drop the dearest of the kind that has the most time; the last one of a kind only when nothing else is left
            many = [v for v in kinds.values() if len(v) > 1] or [v for v in kinds.values() if v]
            v = max(many, key=lambda v: sum(c["cost"] for c in v))
            spent -= v.pop()["cost"] + 0.15
        todo = [c for v in kinds.values() for c in v]
    return sorted(todo, key=lambda c: -c["cost"])
