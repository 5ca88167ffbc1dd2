"""Which jobs decide which property, and within what bounds."""

BINS = ["v", "i", "x", "z", "o", "p", "e", "s", "c", "n", "k", "t"]

ASSUMPTIONS = [
    "TLC, the JVM and rustc are correct",
    "the harness' projection (shape, strides, pointer) of an array is what its public queries report",
    "shapes and histories beyond the stated constants behave like those within (small scope)",
]

SELECT = {"at", "axis_at", "row", "col", "diag", "split", "view"}
TRANS = {"reshape", "reshapec", "flatten", "permute", "reorder", "dense", "remapc"}

VIEW_GEN = {"type": "gen", "module": "ViewsGen", "bin": "v", "mode": "replay",
            "INVARIANT": "TypeOK Refinement Exclusive InBase", "CONSTRAINT": "ProbeConstraint", "VIEW": "StateView"}
VIEW_TRACE = {"type": "trace", "module": "ViewsTrace", "bin": "v", "mode": "record", "POSTCONDITION": "Done"}

LOW = {(), (0,), (1,), (3,), (4,), (2, 3), (3, 2), (3, 1), (0, 2), (2, 0), (4, 4), (2, 3, 2), (2, 1, 2), (2, 0, 3), (1, 2, 1, 2)}
MID = LOW | {(2,), (5,), (1, 1), (1, 4), (3, 3), (0, 0), (2, 4), (3, 2, 2), (1, 3, 2), (3, 2, 1), (0, 2, 2), (2, 2, 2, 2), (3, 1, 2, 2)}
HIGH = {(2, 1, 2, 1, 2), (1, 2, 1, 2, 1, 2), (2, 2, 1, 2, 0), (2, 1, 2, 2, 1, 2)}
# a few larger ones: behaviour may depend on sizes
WIDE = {(17,), (70,), (9, 5), (2, 17), (3, 4, 5)}
WIDER = {(33,), (130,), (17, 3), (8, 8), (2, 3, 9), (5, 1, 7), (2, 2, 3, 4), (2, 2, 2, 2, 3)}
# sizes beyond one byte
BIG = {(300,), (17, 19), (5, 8, 9)}
BIGGER = BIG | {(1030,), (33, 40), (3, 260)}
RANK8 = {(1, 2, 1, 2, 1, 1, 2), (2, 1, 1, 2, 1, 1, 1, 2)}
# beyond the number of bits in a machine word
ONES = lambda n, at: tuple(at.get(i, at.get(i - n, 1)) for i in range(n))
RANK64 = {ONES(63, {0: 2, -1: 3}), ONES(64, {0: 2, 40: 2, -1: 2}), ONES(65, {0: 2, 1: 2, -1: 2}), ONES(66, {0: 3, -2: 2})}


def views(name, focus, tier, bases, depth, rich=1, **kw):
    return {**VIEW_GEN, "name": name, "consts": {"Bases": frozenset(bases), "Depth": depth, "Focus": frozenset(focus), "Rich": rich}, **kw}


def vtrace(name, own, chains, runs, maxrank=4):
    return dict(VIEW_TRACE, name=name, consts={"Own": frozenset(own)}, args=[chains, maxrank], runs=runs)


# expressions
PAIRS = {(), (2, 1), (1,), (2,), (3,), (0,), (2, 3), (3, 2), (1, 3), (2, 0), (0, 3), (2, 2, 3), (2, 1, 2)}
NEST = {(), (3,), (2, 3), (3, 2), (0,), (2, 2, 3)}
# larger ones, alone and against each other
WLEAF = {(17,), (9, 5), (2, 17), (3, 4, 5)} | RANK8
WPAIR = {(), (5,), (17,), (9, 5), (2, 17), (1, 17), (3, 4, 5)}
WPAIRX = {(70,), (33,), (2, 33), (4, 5), (2, 9, 5), (3, 9, 5), (17, 1)}
WNEST = {(), (17,), (9, 5), (2, 17)}


def expr(name, focus, replays, shapes=LOW, pairs=PAIRS, small=NEST, strd=(1, 2, 3)):
    return {"type": "gen", "module": "ExprGen", "name": name, "replays": replays, "INVARIANT": "Yields ExactHint",
            "CONSTRAINT": "EmitConstraint",
            "consts": {"Focus": frozenset(focus), "Shapes": frozenset(shapes), "Pairs": frozenset(pairs),
                       "Small": frozenset(small), "Strd": frozenset(strd)}}


MOREP = PAIRS | {(1, 1), (3, 3), (2, 2), (2, 1, 3), (1, 2, 3), (2, 0, 3), (3, 2, 3), (2, 2, 2, 3)}
NESTP = NEST | {(2,), (1, 3), (2, 0)}


# owning arrays
OWN = {(), (0,), (1,), (3,), (2, 3), (3, 2), (0, 2), (2, 0), (2, 3, 2), (2, 1, 2)}
OWNX = OWN | {(5,), (1, 3), (3, 3), (3, 1), (0, 0), (1, 1, 1), (0, 2, 3), (2, 0, 2), (3, 2, 2), (2, 2, 1, 2)}
NEW = {(), (0,), (1,), (2,), (6,), (12,), (2, 3), (3, 2), (4, 3), (1, 3), (2, 2), (0, 3), (2, 0), (3, 4), (4, 2), (2, 3, 2), (3, 2, 2),
       (2, 3, 3), (2, 4, 2), (1, 1, 1), (2, 0, 2), (0, 3, 2), (3, 4, 3), (3, 1, 3)}
NEWX = NEW | {(3,), (4,), (5,), (8,), (1, 1), (5, 1), (1, 5), (4, 4), (0, 0), (1, 4, 1), (2, 2, 2), (2, 3, 1), (1, 3, 2), (4, 1, 2), (3, 3, 3), (2, 2, 1, 2),
               (2, 1, 3, 2), (3, 2, 2, 2), (2, 2, 0, 2), (1, 3, 1, 3)}


WOWN = {(17,), (9, 5), (2, 17), (3, 4, 5)}
WOTHER = {(5,), (17,), (40,), (2, 5), (9, 5), (1, 17), (2, 17), (5, 5), (2, 4, 5), (3, 4, 5)}
WNEW = {(0,), (5,), (16,), (33,), (65,), (45,), (34,), (60,), (12, 7), (9, 6), (8, 5), (3, 2), (17, 2), (2, 33), (3, 17), (1, 9), (4, 5, 6), (3, 4, 4), (5, 4, 5), (3, 5, 5), (2, 3, 4)}


BOWN = {(300,), (17, 19)}
BOTHER = {(17,), (300,), (5, 19)}
BNEW = {(0,), (2,), (299,), (513,), (323,), (5, 19), (20, 19), (17, 16)}


def own(name, ops, mode, shapes=OWN, other=OWN, new=NEW, depth=1):
    return {"type": "gen", "module": "OwnGen", "name": name, "bin": "o", "mode": mode, "INVARIANT": "Conservation Shape",
            "CONSTRAINT": "EmitConstraint",
            "consts": {"ShapesA": frozenset(shapes), "ShapesB": frozenset(other), "NewShapes": frozenset(new), "Ops": frozenset(ops), "Depth": depth}}


def otrace(runs, histories):
    return {"type": "trace", "module": "OwnTrace", "bin": "o", "mode": "record", "POSTCONDITION": "Done", "name": "hist", "args": [histories], "runs": runs}


# operators
OPSQ = {(), (3,), (2, 3), (0,), (2, 0), (2, 2, 3), (2,), (3, 2), (1, 3), (2, 1)}
OPST = OPSQ | {(1,), (0, 3), (2, 1, 3)}


def opr(name, focus, shapes, depth=1):
    return {"type": "gen", "module": "OpsGen", "name": name, "bin": "p", "mode": "replay", "INVARIANT": "Refines SameDomain Frame",
            "CONSTRAINT": "EmitConstraint",
            "consts": {"Focus": frozenset(focus), "Shapes": frozenset(shapes), "Depth": depth}}


# comparison, search, hash, debug output
EQQ = {(), (0,), (1,), (3,), (4,), (6,), (2, 3), (3, 2), (1, 4), (2, 2), (2, 0), (0, 2), (0, 3), (2, 3, 1), (1, 2, 3), (2, 1, 2), (2, 0, 2), (0, 2, 2),
       (1, 2, 1, 2), (2, 1, 1, 1, 2), (1, 2, 1, 1, 2, 1)}
EQT = EQQ | {(5,), (8,), (3, 3), (2, 4), (4, 2), (2, 2, 2), (3, 2, 2), (2, 2, 3), (2, 2, 2, 2), (1, 3, 1, 2), (2, 2, 1, 2, 2), (2, 1, 2, 1, 2, 1), (0, 0), (3, 0), (2, 2, 0)}


WEQ = {(17,), (33,), (34,), (45,), (60,), (2, 17), (17, 2), (9, 5), (5, 9), (3, 15), (3, 4, 5), (5, 4, 3), (2, 2, 3, 5)} | RANK8


def eqs(name, shapes, depth):
    return {"type": "gen", "module": "EqGen", "name": name, "bin": "e", "mode": "replay", "INVARIANT": "Symmetric HashAgrees ShowAgrees ByOuter",
            "CONSTRAINT": "EmitConstraint", "consts": {"Shapes": frozenset(shapes), "Depth": depth}}


# serialization
STYPES = {(-1,) * k for k in range(1, 7)} | {(2, -1), (-1, 3), (0, -1), (-1, 0), (2, -1, 2), (-1, 2, -1), (-1, -1, 2), (1, -1, -1), (), (0,), (1,), (3,), (2, 3), (2, 0), (0, 2),
                                             (1, 2, 2), (2, 0, 3), (2, 1, 2)}
SDEEP = {(), (0,), (1,), (3,), (2, 2), (2, 3), (3, 2), (0, 2), (2, 0), (2, 1, 2), (1, 2, 2), (2, 0, 3), (2, 2, 2)}
SER = SDEEP | MID | HIGH | WIDE | WIDER | RANK8 | {(300,), (17, 19)} | {(0, 3), (0, 2, 2), (2, 0, 2), (0, 0, 3), (2, 2, 0, 2)}


def ser(name, deep, depth):
    return {"type": "gen", "module": "SerGen", "name": name, "bin": "s", "mode": "replay", "INVARIANT": "RoundTrip Faithful",
            "CONSTRAINT": "EmitConstraint", "VIEW": "StateView",
            "consts": {"Shapes": frozenset(SER), "Types": frozenset(STYPES), "Depth": depth, "Deep": frozenset(deep)}}


# conversions
CONV = {(300,), (17, 19), (), (0,), (1,), (3,), (40,), (9, 5), (3, 4, 5), (2, 3), (3, 2), (2, 0), (0, 2), (2, 3, 1), (2, 1, 3), (3, 2, 2), (2, 0, 3), (2, 1, 3, 2), (2, 3, 1, 2), (1, 2, 3, 1, 2),
        (2, 1, 2, 1, 3), (1, 2, 1, 3, 1, 2), (2, 1, 3, 1, 2, 1), (3, 2, 1, 1), (3, 1, 2, 1, 1, 2)}    # no two axes are alike in all of them
LITS = {(0,), (3,), (2, 0), (2, 3), (2, 1, 3), (2, 1, 3, 2), (3, 2, 1, 1), (1, 2, 3, 1, 2), (2, 1, 2, 1, 3), (1, 2, 1, 3, 1, 2), (2, 1, 3, 1, 2, 1), (3, 1, 2, 1, 1, 2)}
CONVS = {"type": "gen", "module": "ConvGen", "name": "conv", "bin": "c", "mode": "replay", "INVARIANT": "TypeOK Kept Whole Ordered", "PROPERTY": "Sizes",
         "consts": {"Shapes": frozenset(CONV), "Literals": frozenset(LITS)}}


# sizes beyond memory and beyond the machine word
NESTED = {(32,), (63,), (31, 32), (32, 32), (1, 63), (63, 1), (1, 31, 31), (32, 16, 16), (16, 32, 16), (16, 16, 16, 16), (16, 16, 16, 1),
          (1, 16, 16, 16, 16), (1, 1, 16, 16, 16, 16)}


def sizes(exps, ranks):
    return {"type": "gen", "module": "SizeGen", "name": "size64", "bin": "n", "mode": "replay", "INVARIANT": "Bounded", "PROPERTY": "Unchanged",
            "consts": {"Exps": frozenset(exps), "Odd": frozenset({(63, 3), (32, 1)}), "Plain": frozenset({0, 1, 2, 3, 6}), "Ranks": frozenset(ranks),
                       "Nested": frozenset(NESTED), "Starts": frozenset({(0,), (6,), (2, 3), (0, 3), (2, 3, 1)})}}


LAWS = [(), (0,), (1,), (3,), (2, 3), (3, 2), (0, 2), (2, 0), (0, 0), (2, 1, 2), (1, 2, 2), (2, 2, 1, 2), (1, 2, 1, 2, 2), (2, 1, 2, 1, 2, 1), (1,) * 7]
# shape types: -2 alone is a rank not known at compile time, -1 a size not known at compile time
TYPES = [(-2,), (), (-1,), (3,), (0,), (-1, -1), (2, -1), (-1, 2), (2, 3), (2, 0), (-1, -1, -1), (2, -1, 2), (-1, 2, -1), (-1,) * 4, (2, -1, 1, -1), (-1,) * 5, (1, -1, -1, 2, -1),
         (-1,) * 6, (2, 1, 2, 1, 2, 1), (-1, 1, -1, 1, -1, 1)]


def types():
    return {"type": "gen", "module": "KindGen", "name": "types", "bin": "k", "mode": "replay", "INVARIANT": "Sound Keeps Order",
            "consts": {"Full6": (6, 5, 4, 3, 1, 2), "Laws": frozenset(LAWS), "Types": frozenset(TYPES)}}


def threads(shapes, small):
    return {"type": "gen", "module": "ThreadsGen", "name": "threads", "bin": "t", "mode": "replay", "INVARIANT": "Apart Outcome Covers",
            "consts": {"Shapes": frozenset(shapes), "Small": frozenset(small)}}


def jobs(prop, tier):
    q = tier == "quick"
    if prop == "C01":
        if q:
            return [views("index", ["index"], tier, LOW, 2), views("indexhi", ["index"], tier, HIGH | WIDE | RANK8, 1), views("index64", ["index"], tier, RANK64, 0), views("indexbig", ["index"], tier, BIG, 0)]
        return [views("index", ["index"], tier, MID, 3), views("indexhi", ["index"], tier, HIGH | WIDE | WIDER | RANK8, 2), views("index64", ["index"], tier, RANK64, 1), views("indexbig", ["index"], tier, BIGGER, 1)]
    if prop == "C02":
        env = {"VOWN": "select"}
        if q:
            return [views("sel", ["select"], tier, LOW, 1, env=env), views("selhi", ["select"], tier, HIGH | WIDE | RANK8, 0, env=env),
                    views("sel64", ["select"], tier, RANK64, 0, env=env), views("selbig", ["select"], tier, BIG, 0, env=env), vtrace("tr", SELECT, 3000, 4)]
        return [views("sel", ["select"], tier, MID, 2, rich=2, env=env), views("selhi", ["select"], tier, HIGH, 1, env=env),
                views("selwide", ["select"], tier, WIDE | WIDER | RANK8, 0, env=env), views("sel64", ["select"], tier, RANK64, 0, env=env), views("selbig", ["select"], tier, BIGGER, 0, env=env),
                vtrace("tr", SELECT, 20000, 8, 6)]
    if prop == "C03":
        env = {"VOWN": "trans"}
        if q:
            return [views("trans", ["trans"], tier, LOW, 2, env=env), views("transhi", ["trans"], tier, HIGH | WIDE | RANK8, 0, env=env),
                    views("trans64", ["trans"], tier, RANK64, 0, env=env), views("transbig", ["trans"], tier, {(300,), (17, 19)}, 0, env=env),
                    vtrace("tr", TRANS, 3000, 4)]
        return [views("trans", ["trans"], tier, MID, 3, rich=2, env=env), views("transhi", ["trans"], tier, HIGH, 1, env=env),
                views("trans64", ["trans"], tier, RANK64, 1, env=env), views("transbig", ["trans"], tier, BIG | {(1030,)}, 0, env=env),
                views("transwide", ["trans"], tier, WIDE | WIDER | RANK8, 1, env=env), vtrace("tr", TRANS, 20000, 8, 6)]
    # the same families over larger shapes
    wide = lambda name, focus, replays: expr(name + "w", focus, replays, WLEAF, WPAIR if q else WPAIR | WPAIRX, WNEST)
    large = lambda name, focus, replays: expr(name + "b", focus, replays, {(300,), (17, 19)}, {(), (300,), (2, 300), (17, 19), (19,)}, {(17, 19)})
    if prop == "C04":
        w = [large("hold", ["leaf"], [("i", "hold")]), wide("zhold", ["zip"], [("z", "hold")]), wide("xhold", ["sub"], [("x", "hold")]), wide("assign", ["assign"], [("z", "assign")])]
        if q:
            return w + [views("mut", ["mut"], tier, LOW, 2, mode="write"), views("muthi", ["mut"], tier, WIDE | RANK8, 1, mode="write"), views("mutbig", ["mut"], tier, BIG, 0, mode="write"),
                        expr("hold", ["leaf"], [("i", "hold")], LOW | HIGH | WLEAF),
                        expr("zhold", ["zip"], [("z", "hold")]), expr("xhold", ["sub"], [("x", "hold")]),
                        expr("assign", ["assign"], [("z", "assign")])]
        return w + [views("mut", ["mut"], tier, MID, 3, mode="write"), views("muthi", ["mut"], tier, HIGH | WIDE | WIDER | RANK8, 1, mode="write"), views("mutbig", ["mut"], tier, BIGGER, 1, mode="write"),
                    expr("hold", ["leaf"], [("i", "hold")], MID | HIGH | WLEAF | WIDER), expr("zhold", ["zip"], [("z", "hold")], pairs=MOREP),
                    expr("xhold", ["sub"], [("x", "hold")], MID | HIGH), expr("assign", ["assign"], [("z", "assign")], pairs=MOREP)]
    if prop == "C05":
        w = [large("leaf", ["leaf"], [("i", "iter")]), large("zip", ["zip"], [("z", "iter")]), large("sub", ["sub"], [("x", "sub")]), wide("zip", ["zip", "zipmap"], [("z", "iter")]), wide("sub", ["sub"], [("x", "sub")])]
        if q:
            return w + [expr("leaf", ["leaf"], [("i", "iter")], MID | HIGH | WLEAF), expr("zip", ["zip", "zipmap"], [("z", "iter")]),
                        expr("sub", ["sub"], [("x", "sub")])]
        return w + [expr("leaf", ["leaf"], [("i", "iter")], MID | HIGH | WLEAF | WIDER), expr("zip", ["zip", "zipmap"], [("z", "iter")], pairs=MOREP),
                    expr("nest", ["nest"], [("z", "iter")], small=NESTP), wide("nest", ["nest"], [("z", "iter")]), expr("sub", ["sub"], [("x", "sub")], MID | HIGH)]
    if prop == "C06":
        w = [large("zip", ["zip"], [("z", "zip")]), large("assign", ["assign"], [("z", "assign")]), wide("zip", ["zip"], [("z", "zip")]), wide("nest", ["nest"], [("z", "zip")]), wide("assign", ["assign"], [("z", "assign")])]
        if q:
            return w + [expr("zip", ["zip"], [("z", "zip")]), expr("nest", ["nest"], [("z", "zip")]),
                        expr("assign", ["assign"], [("z", "assign")])]
        return w + [expr("zip", ["zip"], [("z", "zip")], pairs=MOREP), expr("nest", ["nest"], [("z", "zip")], small=NESTP),
                    expr("assign", ["assign"], [("z", "assign")], pairs=MOREP)]
    if prop == "C07":
        return [large("sub", ["sub"], [("x", "sub"), ("x", "hold")]), wide("sub", ["sub"], [("x", "sub"), ("x", "hold")]),
                expr("sub", ["sub"], [("x", "sub"), ("x", "hold")], LOW | HIGH if q else MID | HIGH | WIDER, small=NEST if q else NESTP | LOW)]
    if prop == "C08":
        w = [large("leaf", ["leaf"], [("i", "eval"), ("z", "apply")]), large("zip", ["zip"], [("z", "apply")]), wide("zip", ["zip"], [("z", "apply")]), wide("zipmap", ["zipmap"], [("z", "eval")]), wide("nest", ["nest"], [("z", "eval")])]
        if q:
            return w + [expr("leaf", ["leaf"], [("i", "eval"), ("z", "apply")], MID | HIGH | WLEAF), expr("zip", ["zip"], [("z", "apply")]),
                        expr("zipmap", ["zipmap"], [("z", "eval")]), expr("nest", ["nest"], [("z", "eval")])]
        return w + [expr("leaf", ["leaf"], [("i", "eval"), ("z", "apply")], MID | HIGH | WLEAF | WIDER),
                    expr("zip", ["zip"], [("z", "eval"), ("z", "apply")], pairs=MOREP),
                    expr("zipmap", ["zipmap"], [("z", "eval")], pairs=MOREP), expr("nest", ["nest"], [("z", "eval")], small=NESTP)]
    if prop in ("C09", "C10", "C11", "C12"):
        mode = "fault" if prop == "C10" else "replay"
        ops = {"C09": ["size", "move", "user", "pair"], "C10": ["size", "move", "user", "pair"], "C11": ["size", "pair"],
               "C12": ["cap", "size", "pair"]}[prop]
        big = [sizes({16, 31, 32, 62, 63}, {1, 2, 3})] if prop == "C12" and q else [] if prop != "C12" else [sizes({16, 31, 32, 33, 43, 60, 61, 62, 63}, {1, 2, 3})]
        big += [own(o + "w", [o], mode, WOWN, WOTHER, WNEW) for o in ops]
        big += [own(o + "b", [o], mode, BOWN, BOTHER, BNEW) for o in ops]
        if q:
            return [own(o, [o], mode, OWN | {(2, 2, 1, 2)} if o != "pair" else OWN) for o in ops] + [otrace(4, 1500)] + big
        return [own(o, [o], mode, OWNX, OWNX, NEWX, 2 if o != "size" else 1) for o in ops] + [otrace(12, 12000)] + big
    if prop == "C13":
        sh = OPSQ if q else OPST
        return [opr("bin", ["bin"], sh), opr("un", ["un"], sh | MID), opr("tree", ["tree"], {(), (3,), (2, 3), (2, 0)} if q else sh),
                opr("assign", ["assign"], sh, 2), opr("binw", ["bin"], WPAIR if q else WPAIR | WPAIRX), opr("unw", ["un"], WLEAF | WPAIR),
                opr("binb", ["bin"], {(300,), (17, 19), (19,)}), opr("unb", ["un"], {(300,), (17, 19)}), opr("assignb", ["assign"], {(300,), (17, 19), (19,)}),
                opr("assignw", ["assign"], WPAIR if q else WPAIR | WPAIRX)]
    if prop == "C14":
        return ([eqs("eq", EQQ, 2)] if q else [eqs("eq", EQT, 3)]) + [eqs("eqw", WEQ, 1), eqs("eqb", {(260,)} if q else {(300,), (301,), (17, 19), (19, 17), (323,)}, 1)]
    if prop == "C15":
        return [ser("ser", SDEEP, 2), ser("serw", {(17,), (9, 5), (3, 4, 5), (1, 2, 3, 2), (2, 1, 2, 1, 2), (1, 2, 1, 2, 1, 2)}, 1)] if q else [ser("ser", SDEEP | {(2, 2, 1, 2)}, 2), ser("ser3", {(), (1,), (2, 2), (2, 0), (2, 1, 2)}, 3)]
    if prop == "C16":
        return [CONVS]
    if prop == "C17":
        if q:
            return [views("kinds", ["select", "trans"], tier, LOW, 1, mode="kinds"), views("kindsw", ["select", "trans"], tier, WIDE | HIGH | RANK8, 0, mode="kinds"), types()]
        return [views("kinds", ["select", "trans"], tier, MID, 2, rich=2, mode="kinds"), views("kindsw", ["select", "trans"], tier, WIDE | WIDER | HIGH | RANK8, 1, mode="kinds"), types()]
    if prop == "C18":
        return [threads(LOW | WIDE, {(3,), (2, 2), (2, 3)})] if q else [threads(MID | HIGH | WIDE | WIDER, {(3,), (4,), (2, 2), (2, 3), (3, 2), (2, 1, 2), (2, 2, 2)})]
    raise SystemExit("no check for " + prop)


VNOTE = ("Exhaustive within the stated constants on the TLA+ specification; every transition TLC explores is executed on the real "
         "library (debug and non-debug builds). Trusts TLC, rustc and the harness' projection; nothing is claimed beyond the bounds.")
TECH = {
    "C01": ("TLA+ view model (TLC), every state's element map replayed on the library", VNOTE),
    "C02": ("TLA+ view model (TLC): transition replay and trace validation", VNOTE),
    "C03": ("TLA+ view model (TLC): transition replay and trace validation", VNOTE),
    "C04": ("TLA+ view model (TLC): writes replayed through every mutable view", VNOTE),
    "C05": ("TLA+ iteration model (TLC, refinement of the ideal order); every expression iterated on the library", VNOTE),
    "C06": ("TLA+ expression model (TLC): every operand pair zipped and assigned on the library", VNOTE),
    "C07": ("TLA+ expression model (TLC): every axis/lane expression iterated on the library", VNOTE),
    "C08": ("TLA+ expression model (TLC): every expression evaluated on the library with closure calls logged", VNOTE),
    "C09": ("TLA+ ownership model (TLC): every operation replayed with tracked elements; recorded histories validated", VNOTE),
    "C10": ("TLA+ ownership model (TLC): every operation replayed with a panic at every user call; recorded histories validated", VNOTE),
    "C11": ("TLA+ ownership model (TLC): every growing/shrinking operation replayed; recorded histories validated", VNOTE),
    "C12": ("TLA+ ownership model (TLC): every capacity operation replayed, recorded histories validated; TLA+ size model with sizes beyond the machine word", VNOTE),
    "C13": ("TLA+ operator model (TLC, refined by the library's evaluation order): every operator application and assignment history replayed with symbolic elements", VNOTE),
    "C14": ("TLA+ content model (TLC): every pair of arrays compared, hashed, searched and shown on the library in every holder", VNOTE),
    "C15": ("TLA+ content model (TLC): every nested form and every damaged one read into every shape type, every array written in every holder", VNOTE),
    "C16": ("TLA+ holder model (TLC): every conversion between holders executed on the library", VNOTE),
    "C17": ("TLA+ view model (TLC): every transition executed under all shape kinds; TLA+ model of the shape types: every operation and shape law executed on every type", VNOTE),
    "C18": ("TLA+ model of handles and threads (TLC, weakest safe rule); every kind of value probed for every kind of element, every division of an array among threads executed", VNOTE),
}
NOT_APPLICABLE = {}
