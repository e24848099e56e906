INTRO = """# Design

Solver-based checking of the real code, for every property.  No property is listed as not applicable.

## How a check works

Each check (`vf/checks/cNN.py`) consists of harnesses `h(ctx, **params)` and a list of jobs.  A job is run by `vf/sx.py`:

* **Symbolic execution of the real functions.**  The working tree of /repo is imported as it is (`vf/boot.py`; nothing is cached between runs), and
  its functions run natively on symbolic proxies: choices (`ctx.pick`, `ctx.flag`, `ctx.subset`), integers, booleans, strings, objects.  When the
  real code branches on such a value, z3 decides which outcomes are feasible under the path condition; one is followed, the others are queued and
  the harness is executed again for them, until every feasible path is done.  An unfinished exploration is exit code 3, never 0.
* **Strings** come in three kinds: one-of-k texts (`ctx.str`), texts with symbolic *characters* (`vf/sstr.py` compiles the current source of the
  string-handling modules so that membership, slicing, `re`, `split`, `lower` ... work on 8-bit terms; unanchored patterns are turned into z3 regexes or
  forked on), and *holes*: a symbolic literal that passes through the generator as a marker and becomes a solver variable in the resulting SQL.
* **The SQL is part of the semantics.**  What the product promises is about the *rows a warehouse returns*, so the text generated on a path is parsed
  (`vf/sqlp.py`, the grammar of the ten dialects) and given a meaning over **bounded symbolic tables** (`vf/sqls.py`): every cell a solver variable that can be NULL,
  three-valued logic, bag semantics, inner/left/full joins, grouping, aggregates, windows, CTEs, ORDER BY/LIMIT, name resolution and ambiguity.  Text that no SQL
  parser accepts or that refers to an unknown or ambiguous column is itself a violation.  `vf/civ.py` adds date functions over a civil calendar on z3 integers, with the meaning each warehouse documents;
  `vf/cal.py` is a stand-in for `pendulum` over the same calendar (compared with the real pendulum by `tools/selftest_cal.py` in setup).
* **Oracle.**  An independently written specification over the same tables or values (`vf/spec.py`, `vf/ref.py`, or in the check); where the property says that two things mean the same (mapped names, text and structure, order of definitions, memory),
  both are produced by the real code and compared.
* **Verdict.**  `ctx.prove` asks z3 (or, for the quick linear cases, decides by simplification) for values of all symbolic inputs on the path that falsify the assertion.  `unsat` on every path = holds within the bounds.
  `sat` = counterexample, which is **replayed in a fresh process with plain Python values against the real code** (`run.sh ID --replay FILE`) before a VIOLATION line is printed; a counterexample that does not reproduce is an error of the check (exit 2), not an alarm.
  Before proving, each path must satisfy a reachability query (`ctx.reached`), and a check that proved nothing is refused as vacuous.
* **What is enumerated and what is solved.**  Query *shapes* (which metrics, which join topology, which dialect) are finite choices: jobs or `ctx.pick` variables.  Everything that ranges over values (table contents, NULLs, literals, instants, counts, attribute values, characters,
  truth values of conditions, iteration orders, failure points) is a solver variable.
* Jobs run in 8 processes with time limits (`vf/runner.py`); evidence (functions encoded, paths, queries, solver seconds, bounds) is written per run.

Hooks in /repo: none.  `tools/mkprops.py`, `tools/mkmanifest.py`, `tools/mkdesign.py` write properties.jsonl, MANIFEST.json and this file.

### Trust base and common limits
z3; the SQL semantics in `sqls.py`/`civ.py` (written from the warehouses' documentation; no warehouse is here to compare with; sqlite serves the demos of the planted bugs); two to five rows per table; integers instead of decimals except where stated; hash digests of the
de-duplicating sums are collision free.  Behaviour-preserving edits are quiet by construction: no check looks at the text of the code, and generated SQL is compared by meaning (C09/C24/C29 and parts of C22/C23 compare texts, but only texts both produced by the code under check).

### Findings
Genuine defects were repaired when a maintainer would accept the repair and no existing test pins the wrong text; the rest are in `known-findings.json`, each identified by a signature (request form, warehouse, kind of failure), so another failure of the same property is still reported.

### False alarms met and what was done
* C03: a de-duplicating count of a group without rows of the view is NULL where a plain COUNT is 0: both are accepted.
* C07: an intermediate (bridging) view that contributes no field does not have its access filters applied; accepted, the statement speaks of queries that *use a field* of the view.
* C09: requests that cannot be merged (a field without a mapping) are refused; accepted.
* C15: warehouses count either elapsed units or boundaries; both accepted, as the product leaves this to the warehouse.
* C20/C27: a mapped name in `group_by` of a filter is refused; accepted.
* C23: names that are reserved words of SQL cannot be written in MQL; outside.
"""
NOTES = {
"C01": ("For each comparison kind and column type the real filter code writes the condition with a hole for the value; the condition's value on a symbolic cell is compared with the documented comparison.", "tests compare the text for one value; quoting, NULL and case folding matter for values they do not have"),
"C02": ("Trees of groups are built by solver choices, each leaf a condition on its own column, so a misplaced parenthesis or operator shows for some truth assignment.", "tests cover a handful of trees, without NULL"),
"C03": ("Join relationships and topologies are jobs; the SQL's measure columns are compared with the declared aggregate over the distinct rows of the own view per group.", "fan-out errors show only for tables in which keys repeat or do not match"),
"C04": ("As C03 for one view, on each warehouse, with the measure's own filters.", "each warehouse writes aggregates differently, and missing values matter"),
"C05": ("The column's text is parsed with SQL precedence and compared with the tree of definitions over symbolic operands.", "a missing parenthesis only shows for particular operators and values"),
"C06": ("The identifier kinds, join restrictions and relationships are symbolic objects handed to the real join graph; each path's FROM clause is checked by a formula over the configuration.", "the number of configurations is far beyond a test suite"),
"C07": ("Non-interference: the same SQL on the tables and on the tables without the hidden rows.", "a leak needs a query form in which the filter is placed at the wrong level, and rows that show it"),
"C08": ("Attributes and allowed values are symbolic; the solver relates what is usable to the rule.", "combinations of grants, attributes, query forms and successive users"),
"C09": ("Every metric's own query, resolved by the same code, is the oracle for its column in the merged result; plus: unrelated views in the project change nothing (the texts are equal).", "rows that only one side has, NULL keys, three sides, big projects"),
"C10": ("The date spine is a symbolic pair of days, today a symbolic day; the answer is the aggregate over all rows up to each bucket.", "gaps, rows before the range, missing groups"),
"C11": ("Chains of events are a formula over all event orders; the step's metric is the aggregate over the events completing a chain.", "interleavings of entities and times; ties; limits"),
"C12": ("The snapshot per window is a formula over all rows.", "ties, windows crossing groups, empty windows"),
"C13": ("`pendulum.now` answers a symbolic second; the window that the real code renders is compared with the calendar window.", "month ends, leap years, daylight saving, week starts: particular instants only"),
"C14": ("The bucket's SQL is evaluated over a civil calendar at a symbolic second.", "as C13"),
"C15": ("As C14 with two instants.", "as C13"),
"C16": ("The conversion is an uninterpreted function; the result must be the function applied exactly where configured.", "tests fix one zone and look at text"),
"C17": ("Cutoffs and values are symbolic; labels are compared with the definition's.", "boundaries and unusual label characters"),
"C18": ("The current source of the filter module runs on symbolic characters.", "all texts up to a length"),
"C19": ("Two result rows, one comparison by the clause and one by the request; the limit is a symbolic number.", "sequences and directions, names that contain asc/desc"),
"C20": ("The lookup functions run on symbolic characters.", "all names up to a length"),
"C21": ("Set expansion runs on symbolic names.", "all aliasing patterns of names"),
"C22": ("Sequences of operations are solver choices; after each, every answer is compared with that of a freshly built project in the same process state as after import (`vf/state.py`).", "pairs of operations: 20 x 60 and more"),
"C23": ("Requests assembled from solver choices are written as MQL and asked as structure.", "combinations of clauses, cases, spacings and surroundings"),
"C24": ("A failure at a symbolic call of one of 12 functions; afterwards definitions and answers are as fresh.  Uninterrupted: the report equals that of a project built from the edited definitions.", "crash points"),
"C25": ("The group's metric is computed by formula per group; rows of qualifying groups are the answer's.", "groups without rows, NULL groups, comparisons at the boundary"),
"C26": ("The answer with mandatory filters is the answer without them on the rows satisfying them.", "query forms x filters"),
"C27": ("The request with members in place of mapped names, resolved by the same code, is the oracle.", "combinations of mapped and plain names"),
"C28": ("The join of the queries' own answers is the oracle.", "rows that only some queries have"),
"C29": ("Sets are replaced by an import hook with ones whose iteration order the solver chooses; the text under every order is the text under the alphabetical one.", "a test process has one hash seed"),
}
