------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* The feature lattice: which items every set of features provides.        *)
(* An item is provided as soon as all features that it needs are enabled;  *)
(* what it does never depends on the others.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Feature == {"std", "alloc", "macros", "ansi", "html", "plain"}
\* std comes with alloc
Closure(F) == F \cup (IF "std" \in F THEN {"alloc"} ELSE {})

Needs == [
    style           |-> {},
    restyle         |-> {},
    writer          |-> {},
    dynwriter       |-> {},
    display         |-> {},
    argstype        |-> {},
    format_args     |-> {"macros"},
    write           |-> {"macros"},
    writeln         |-> {"macros"},
    nested          |-> {"macros"},
    traits          |-> {"macros"},
    params          |-> {"macros"},
    attrs           |-> {"macros"},
    concat          |-> {"macros"},
    errors          |-> {"macros"},
    string          |-> {"alloc"},
    format_fn       |-> {"alloc"},
    string_replay   |-> {"alloc", "macros"},
    format          |-> {"alloc", "macros"},
    to_stylish      |-> {"alloc", "macros"},
    ansi            |-> {"ansi"},
    ansi_write      |-> {"ansi", "macros"},
    ansi_format_fn  |-> {"ansi", "alloc"},
    ansi_format     |-> {"ansi", "alloc", "macros"},
    to_ansi         |-> {"ansi", "alloc", "macros"},
    html            |-> {"html"},
    html_write      |-> {"html", "macros"},
    html_format_fn  |-> {"html", "alloc"},
    html_format     |-> {"html", "alloc", "macros"},
    to_html         |-> {"html", "alloc", "macros"},
    plain           |-> {"plain"},
    plain_write     |-> {"plain", "macros"},
    plain_format_fn |-> {"plain", "alloc"},
    plain_format    |-> {"plain", "alloc", "macros"},
    to_plain        |-> {"plain", "alloc", "macros"},
    io_writer       |-> {"std"},
    io_ansi         |-> {"std", "ansi"},
    io_plain        |-> {"std", "plain"},
    io_macros       |-> {"std", "macros"},
    io_ansi_write   |-> {"std", "ansi", "macros"},
    io_plain_write  |-> {"std", "plain", "macros"} ]

Item == DOMAIN Needs
Provided(F) == {i \in Item : Needs[i] \subseteq Closure(F)}

\* features only add items, and all of them together provide everything
ASSUME \A F \in SUBSET Feature, f \in Feature : Provided(F) \subseteq Provided(F \cup {f})
ASSUME Provided(Feature) = Item
ASSUME \A F \in SUBSET Feature : Provided(F) = Provided(Closure(F))
\* no item needs more than it says: there is a least set that provides it
ASSUME \A i \in Item : i \in Provided(Needs[i]) /\ \A F \in SUBSET Feature : i \in Provided(F) => Needs[i] \subseteq Closure(F)
=============================================================================
