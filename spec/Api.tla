--------------------------------- MODULE Api ---------------------------------
(* The public interface as a state machine over a few registers: a sudoku    *)
(* and a second one, a strategy solver (absent at first), the deductions of  *)
(* its last run (absent at first).  An operation is <<name, a, b>>.          *)
(* The table tells for every operation                                       *)
(*   A, B     the arguments (numbers; seeds stand for whole inputs)          *)
(*   needs    registers that have to be present                              *)
(*   makes    registers it sets                                              *)
(*   sets     whether it may change the sudoku / the solver                  *)
(*   det      whether its result is a function of arguments and registers    *)
(* No operation fails except by returning an error, but for Panics.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Seeds == 0..9999
Op(aa, bb, needs, makes, su, so, det) == [A |-> aa, B |-> bb, needs |-> needs, makes |-> makes, su |-> su, so |-> so, det |-> det]
Q(aa, bb)      == Op(aa, bb, {}, {}, FALSE, FALSE, TRUE)              \* asks the sudoku or nothing
M(aa, bb, det) == Op(aa, bb, {}, {}, TRUE, FALSE, det)                \* replaces the sudoku
S(aa, bb)      == Op(aa, bb, {"so"}, {}, FALSE, FALSE, TRUE)          \* asks the solver
D(aa, bb)      == Op(aa, bb, {"de"}, {}, FALSE, FALSE, TRUE)          \* asks the deductions
Limits == {0 - 1, 0, 1, 2, 3, 7, 10, 100, 1000, 5000}

Table == [
    load         |-> M(0..9, Seeds, TRUE),
    bytes        |-> M(0..200, Seeds, TRUE),
    parse_line   |-> M(0..5, Seeds, TRUE),
    parse_block  |-> M(0..5, Seeds, TRUE),
    parse_perm   |-> M(0..5, Seeds, TRUE),
    from_json    |-> M(0..5, Seeds, TRUE),
    from_bin     |-> M(0..200, Seeds, TRUE),
    gen_solved   |-> M({0}, Seeds, TRUE),
    gen          |-> M(0..9, Seeds, TRUE),
    gen_from     |-> M(0..9, Seeds, TRUE),
    gen_thread   |-> M(0..9, 0..4, FALSE),
    take_sol     |-> M({0}, {0}, TRUE),
    take_canon   |-> M({0}, {0}, TRUE),
    shuffle      |-> M(0..1, {0}, FALSE),
    drop_clues   |-> M(1..80, Seeds, TRUE),
    put_digit    |-> M(0..80, 0..9, TRUE),
    swap         |-> M({0}, {0}, TRUE),
    n_clues      |-> Q({0}, {0}),
    is_solved    |-> Q({0}, {0}),
    some_sol     |-> Q({0}, {0}),
    solution     |-> Q({0}, {0}),
    unique       |-> Q({0}, {0}),
    count        |-> Q(Limits, {0}),
    list         |-> Q(Limits, {0}),
    buffer       |-> Q(0..20, Limits),
    canonical    |-> Q({0}, {0}),
    print_line   |-> Q({0}, {0}),
    print_block  |-> Q({0}, {0}),
    debug        |-> Q({0}, {0}),
    to_bytes     |-> Q({0}, {0}),
    iter         |-> Q({0}, {0}),
    to_json      |-> Q({0}, {0}),
    to_bin       |-> Q({0}, {0}),
    compare      |-> Q({0}, {0}),
    new_solver   |-> Op(0..2, Seeds, {}, {"so"}, FALSE, TRUE, TRUE),
    from_states  |-> Op(0..5, Seeds, {}, {"so"}, FALSE, TRUE, TRUE),
    rebuild      |-> Op({0}, {0}, {"so"}, {}, FALSE, TRUE, TRUE),
    insert       |-> Op(0..80, 1..9, {"so"}, {}, FALSE, TRUE, TRUE),
    to_sudoku    |-> Op({0}, {0}, {"so"}, {}, TRUE, FALSE, TRUE),
    grid_state   |-> S({0}, {0}),
    cell_state   |-> S(0..80, {0}),
    sv_solved    |-> S({0}, {0}),
    sv_print     |-> S({0}, {0}),
    sv_debug     |-> S({0}, {0}),
    solve        |-> Op(0..3, Seeds, {"so"}, {"de"}, FALSE, FALSE, TRUE),
    ded_len      |-> D({0}, {0}),
    ded_get      |-> D(0..300, {0}),
    ded_iter     |-> D({0}, {0}),
    ded_debug    |-> D({0}, {0}),
    digit_new    |-> Q(0..255, {0}),
    cell_new     |-> Q(0..255, {0}),
    row_new      |-> Q(0..255, {0}),
    col_new      |-> Q(0..255, {0}),
    block_new    |-> Q(0..255, {0}),
    line_new     |-> Q(0..255, {0}),
    house_new    |-> Q(0..255, {0}),
    chute_new    |-> Q(0..255, {0}),
    miniline_new |-> Q(0..255, {0}),
    candidate    |-> Q(0..255, 0..255),
    digit_set    |-> Q(0..511, 0..511),
    cell_set     |-> Q(Seeds, Seeds) ]
Names == DOMAIN Table

\* documented panics
Panics(name, a, b) ==
    CASE name = "digit_new"    -> a \notin 1..9
      [] name = "cell_new"     -> a > 80
      [] name \in {"row_new", "col_new", "block_new"} -> a > 8
      [] name = "line_new"     -> a > 17
      [] name = "house_new"    -> a > 26
      [] name = "chute_new"    -> a > 5
      [] name = "miniline_new" -> a > 53
      [] name = "candidate"    -> a > 80 \/ b \notin 1..9
      [] OTHER -> FALSE

Legal(have, name, a, b) == name \in Names /\ a \in Table[name].A /\ b \in Table[name].B /\ Table[name].needs \subseteq have
After(have, name) == have \cup Table[name].makes
=============================================================================
