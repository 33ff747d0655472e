"""Which models, recorders and trace specifications decide which property."""


def mc(module, cfg=None, **kw):
    return dict(module=module, cfg=cfg or module, **kw)


SOLVE = mc("SolveSearch")
ST = ("SolverTrace", "SolverTrace")

SOLVER_NOTE = ("The search design is checked exhaustively on the 4x4 board. Every recorded call on the real solver is judged exactly: "
               "TLC checks a complete search tree (a run of the specified search machine) or enough distinct witnesses, so nothing about "
               "the number of solutions is trusted to the harness. Sampled over kinds of grids; further cases are only compared with a reference solver first.")

FMT = mc("FormatMC", cfg_thorough="FormatMCBig")
FT = ("FormatTrace", "FormatTrace")
FMTGEN = [dict(module="FormatGen", cfg="FormatGen", out="gen-strings.ndjson", num=2500, num_thorough=40000, depth=60)]
FORMAT_NOTE = ("The grammar is specified declaratively; on a 2x2 board TLC shows exhaustively that a one-pass parsing machine shaped like the "
               "implementation computes exactly the declared outcomes. Every recorded call of the real parsers, printers and conversions is "
               "judged exactly against the same definitions at full size; the inputs are sampled (texts written by TLC following the grammar but for a few slips, valid texts, mutations, all characters at all "
               "places with a meaning of their own).")

FILL = mc("FillMC", cfg_thorough="FillMCBig")
DIG = mc("DigMC", cfg_thorough="DigMCBig")
GT = ("GenTrace", "GenTrace")
GEN_NOTE = ("The generating machines (random filling with backtracking; emptying symmetric groups) are checked exhaustively on the 4x4 board, for all "
            "choices of the random numbers. Every recorded call of the real generators is judged exactly (search trees and witness solutions checked by TLC); "
            "the random number generators and sources are sampled; many more calls are compared with a reference solver first.")

STRAT = mc("StrategyMC", cfg_thorough="StrategyMCBig", workers=6)
STRATS = [STRAT, mc("StrategyMC", "StrategyMCSlack", thorough=True, workers=6)]
YT = ("StrategyTrace", "StrategyTrace")
STRAT_NOTE = ("The strategies and the solving loop are specified; on the 4x4 board TLC shows that every application keeps all solutions and that the loop "
              "ends only when solved, contradictory or stuck. Every recorded run of the real solver (initial position, strategies, deduction history, result) is "
              "judged exactly at full size. Positions and strategy lists are sampled, with generators that make all patterns frequent.")

SESS = [mc("SessionMC", cfg_thorough="SessionMCBig", workers=6)]
SEGEN = [dict(module="SessionGen", cfg="SessionGen", out="sessions.json", num=150, num_thorough=3000, depth=22)]
SE = ("SessionTrace", "SessionTrace")
SESS_NOTE = ("The lazily updated caches are modelled and shown on the 4x4 board to refine the abstract position whose operations Session.tla specifies. "
             "Sessions with the real solver (some generated by TLC from the specification, most random) are judged exactly at full size: every operation's result "
             "against the position reached. Sampled over start positions and sequences of operations.")

TRANSF = [mc("TransformMC", cfg_thorough="TransformMCBig", workers=6)]
CT = ("CanonTrace", "CanonTrace")
CANON_NOTE = ("On the 4x4 board TLC shows for all 288 solved grids, walking by elementary moves, that the specified staged search yields exactly the transformations to the "
              "declaratively minimal member of the class, and class size times automorphisms is the order of the group; also that the specified random drawing reaches every transformation. "
              "At full size TLC evaluates the staged search over all 46656 candidates for each recorded grid, so results are judged exactly, grids with many automorphisms included; grids are sampled.")

APIGEN = [dict(module="ApiGen", cfg="ApiGen", out="programs.json", num=300, num_thorough=3000, depth=32)]
APIDET = [dict(module="ApiGen", cfg="ApiGenDet", out="programs.json", num=200, num_thorough=2000, depth=32)]
APIPAR = [dict(module="ApiPar", cfg="ApiPar", out="schedules.json", num=150, num_thorough=2000, depth=45)] + APIGEN
AP = ("ApiTrace", "ApiTrace")
API_NOTE = ("The whole public interface is specified as a machine over registers (which operations exist, their arguments, what they may change, which are functions of their inputs, "
            "which panics are documented). Programs, partly generated by TLC from that specification, run on the real library; every step's outcome and effect is judged. "
            "Inputs are sampled from seeds; termination means 25 s per call.")

PROPS = {
    "P16": dict(mc=STRATS, rec=[dict(spec=YT, shards=7)], note=STRAT_NOTE),
    "P17": dict(mc=STRATS, rec=[dict(spec=YT, shards=7)], note=STRAT_NOTE),
    "P18": dict(mc=STRATS, rec=[dict(spec=YT, shards=7)], note=STRAT_NOTE),
    "P19": dict(mc=SESS, gen=SEGEN, rec=[dict(spec=SE, shards=7)], note=SESS_NOTE),
    "P20": dict(mc=SESS, gen=SEGEN, rec=[dict(spec=SE, shards=7)], note=SESS_NOTE),
    "P21": dict(mc=SESS, gen=SEGEN, rec=[dict(spec=SE, shards=7)], note=SESS_NOTE + " All 521 cell states are printed at 16 widths."),
    "P08": dict(mc=TRANSF, rec=[dict(spec=CT, shards=7)], note=CANON_NOTE + " Variety is judged on 20000 shuffles of one grid: every value of every part of the transformation, all pairs and triples of parts, "
                "all pairs of relabelled digits; the probability of a false alarm is below 1e-8 (the library seeds its random numbers itself)."),
    "P09": dict(mc=TRANSF, rec=[dict(spec=CT, shards=7)], note=CANON_NOTE),
    "P10": dict(mc=TRANSF, rec=[dict(spec=CT, shards=7)], note=CANON_NOTE),
    "P24": dict(mc=[SOLVE, STRAT], gen=APIDET, merge=["release", "assert", "unchecked", "uncheckedassert"],
                rec=[dict(spec=AP, shards=2, variant=v, merge=True) for v in ("release", "assert", "unchecked", "uncheckedassert")]
                    + [dict(spec=ST, shards=2, variant=v, mode="P01") for v in ("assert", "unchecked")], note=API_NOTE),
    "P26": dict(mc=[mc("ParMC", cfg_thorough="ParMCBig")], gen=APIPAR, rec=[dict(spec=AP, shards=7)],
                note=API_NOTE + " Purity: 500 schedules of three callers (150 written by TLC), each run alone, in turns, at once and again later; data races that "
                "no run exhibits are not found (the library is safe Rust)."),
    "P25": dict(mc=[SOLVE, STRAT], gen=APIGEN, rec=[dict(spec=AP, shards=6), dict(spec=AP, shards=2, variant="assert")], note=API_NOTE),
    "P05": dict(mc=[FILL], rec=[dict(spec=GT, shards=7)], note=GEN_NOTE),
    "P06": dict(mc=[DIG], rec=[dict(spec=GT, shards=7)], note=GEN_NOTE),
    "P07": dict(mc=[DIG], rec=[dict(spec=GT, shards=7)], note=GEN_NOTE),
    "P01": dict(note=SOLVER_NOTE, mc=[SOLVE], rec=[dict(spec=ST, shards=7)]),
    "P02": dict(note=SOLVER_NOTE, mc=[SOLVE], rec=[dict(spec=ST, shards=7)]),
    "P03": dict(note=SOLVER_NOTE, mc=[SOLVE], rec=[dict(spec=ST, shards=7)]),
    "P04": dict(note="Exact on every recorded grid (TLC evaluates the rules on all 27 houses); sampled over solved, near-solved and arbitrary grids.", mc=[SOLVE], rec=[dict(spec=ST, shards=4)]),
    "P11": dict(mc=[FMT], gen=FMTGEN, rec=[dict(spec=FT, shards=4)], note=FORMAT_NOTE),
    "P12": dict(mc=[FMT], gen=FMTGEN, rec=[dict(spec=FT, shards=4)], note=FORMAT_NOTE),
    "P13": dict(mc=[FMT], gen=FMTGEN, rec=[dict(spec=FT, shards=4)], note=FORMAT_NOTE),
    "P14": dict(mc=[FMT], rec=[dict(spec=FT, shards=4)], note=FORMAT_NOTE),
    "P22": dict(mc=[mc("SetMC", cfg_thorough="SetMCBig")], rec=[dict(spec=("SetTrace", "SetTrace"), shards=4), dict(spec=("SetTrace", "SetTrace"), shards=2, variant="assert")],
                note="The bit-level design is checked exhaustively for 5 (thorough: 7) elements. The real operations are recorded and judged by TLC: "
                     "all pairs of sets for the 9-element types (in both builds, with and without debug assertions), all pairs of elements and sampled sets for Line, House and Cell."),
    "P27": dict(mc=[mc("ValueMC", cfg_thorough="ValueMCBig")], rec=[dict(spec=("ValueTrace", "ValueTrace"), shards=6)],
                technique="TLA+ specification of values, copies and orders, model checked with TLC; TLC validation of tables of comparisons recorded from the library",
                note="Tables of all pairs of 10 to 28 values (alike, equal values made in different ways) of every public type that can be compared; sampled. Hash collisions of unequal values are not judged."),
    "P23": dict(mc=[mc("PositionsMC")], rec=[dict(spec=("GeoTrace", "GeoTrace"), shards=1), dict(spec=("GeoTrace", "GeoTrace"), shards=1, variant="assert")],
                technique="TLA+ specification of the board geometry, model checked for consistency with TLC; TLC validation of a complete recording of the position types",
                note="Exhaustive: all values of all position types, all 256 numbers for construction, all conversions, all sets of positions of every line and house, in both builds."),
    "P15": dict(mc=[FMT], rec=[dict(spec=FT, shards=4)], note=FORMAT_NOTE),
}
