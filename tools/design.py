HEAD = """# Design

## What decides the properties

`/verif/pyvc` is a deductive verifier for Python, written for this task because none is installed: it takes the functions of
/repo **as they are** (the current source, parsed by CPython's own `ast` on every run; nothing is copied, translated by hand or
annotated), executes them symbolically with all paths, replaces loops by invariants (establish, havoc, preserve, leave),
calls by contracts where one is given and otherwise by their real bodies, and sends every obligation to z3 (cvc5 when z3
answers unknown). Arguments, texts, lists, dictionaries, histories and loop counts are unbounded.

* `contracts/Cxx.py` holds the specification: executable Python with `assume` (preconditions), `assert "name"` (named
  obligations) and specification functions marked `SPEC`. The same file is run by CPython in the cross check, so a contract
  means the same thing to the prover and to Python.
* `proofs/Cxx.py` holds what only the proof needs: loop invariants and frames (`LOOPS`), summaries of callees that are
  specified elsewhere or are external (`SUMMARIES`), ghost state, symbolic data types (`SYMS`), folds with Skolem indices.
* `pyvc/engine.py`, `models.py`, `values.py`, `loops.py` are the symbolic executor, the models of Python's operators and
  built-ins, the symbolic values and the loop rule; `prove.py` discharges the contracts of a property, `bounded.py` runs them
  under CPython, `check.py` is the command registered in the manifest.

What extraction drops: nothing of the verified functions. Decorators, class bodies and module globals are taken from the really
imported modules of /repo (imported by the /opt/venv interpreter's libraries), so constants, tables and inheritance are the
real ones. Logging calls are assumed to do nothing. Python features that the executor does not support make the contract
*unsupported*, which is reported as a violation without input, never as success.

### Each check, on every run
1. **Proof.** Every non-bounded contract of the property is proved from /repo's current source. Obligations are: each `assert`
   on each path, each invariant (entry and preservation), each callee precondition, absence of exceptions the contract does
   not allow, and a vacuity guard (the assumptions of a contract are satisfiable, each contract reaches its assertions).
2. **Cross check.** The same contracts are run by CPython on seeded inputs and a pool of corner cases against the real code.
   It validates pyvc's models (a contract that is proved but fails under CPython is a violation) and supplies the failing
   inputs. Contracts marked bounded exist only here; they go through whole SQL statements, where the trusted library `syncany`
   takes part.
3. **Verdict.** A failing input is written to `replay/<id>-n.json` and replayed against the real code
   (`tools/replay.py`); `VIOLATION property=.. replay=..`. When only an obligation fails, the solver's model is tried as an
   input; if it does not reproduce, the replay file names the obligation and carries the verifier's output and the line ends
   with `no-failing-input-found`.

A contract is a statement on behaviour (results, recorded effects, raised or not), never on how the function is written.
Loop invariants are keyed by function and loop number and speak about program variables through the *folds* of the
specification; a rewritten loop or a helper extracted into a new function can make an obligation fail without an input, which
the task allows for edits of behaviour. Helpers need no contract: without one, the body is executed.

### Trusted base
z3 and cvc5; CPython's parser; pyvc itself, in particular its models of operators and built-ins (cross-checked on each run);
the library `syncany` 0.2.27 (loaders, outputers, databases, joins, sorting) and `sqlglot` 11.7.1 (parser, generator). Floats
and Decimals are mathematical reals; integers are unbounded as in Python; the memory limit, recursion limit, signals inside
Python code and monkey patching are outside. Text conversions (`str(float)`, `int(text)`, case mapping, `re`) are
uninterpreted functions, so a proof holds for whatever they return. Each evidence file lists the assumptions that apply to its
property, the functions under contract, obligations per back end and solver time.

### Cost
A quick check takes 1 to 75 s on 8 cores (C07 the longest); all of them about 6 minutes. The thorough tier proves the same
obligations (they are already unbounded) and runs the cross check with many more cases and seeds.

## Properties
"""
PROP = {
"C01": """`SqlParser.split` is proved equal to the fold of a one-character lexer (mode, pending backslash, statement start) over the text, for
every text: the k-th segment is exactly `sql[start_k:end_k]` of the fold's k-th statement, with its line. The three nested
scanning loops (`split`, `skip_escape`, `read_util`) each have an invariant that ties `index` and `lineno` to the fold. Unit
tests fix a handful of scripts; quotes, comments and backslashes interact in unboundedly many ways.""",
"C02": """`EnvVariables.get_value` and the lookups of executor scopes are proved over scope chains of any length (ghost array of scopes, loop
invariant "no inner scope defines the name"), for arbitrary names and values including NULL.""",
"C03": """The placeholder substitution is proved as a fold over the matches of the real regular expression (`finditer` summarised by its
documented contract): text between matches unchanged, each match replaced once by the specified text, replaced text not read
again. Rendering of values (dates, lists, nested lists by structural induction) is proved against a specification.""",
"C04": """The merge functions and set/get/unset of session configuration are proved for arbitrary dictionaries with Skolem keys (a key
that is not named keeps its value; the parent is never written). Merging of databases and caches by name and histories of sessions are bounded.""",
"C05": """The literal readers of SET and of placeholder arguments are proved for every text, split by the shapes of the text the code
can distinguish; whole SET statements and script arguments are bounded.""",
"C06": """All comparison operators are proved for every pair of operand kinds (None, bool, int, float, Decimal, text, date, datetime, time,
timedelta, bytes, list, dict ...), with numbers symbolic; IN by a loop invariant over lists of any length. Algebraic laws
(opposites, negation) are separate contracts over two calls.""",
"C07": """Every numeric and bitwise function is proved for every operand kind with symbolic values: NULL propagation, agreement with the
mathematical definition (uninterpreted for sin, log ...), independence of number/text form, NULL on domain errors.""",
"C08": """Each aggregate's step function is proved as one step of the fold in its definition (state invariant relates the accumulator
to the mathematical aggregate of the values so far), the final function reads the aggregate off. By induction over the group, of any
length. Whole GROUP BY queries are bounded.""",
"C09": """merge(state(xs), state(ys)) = state(xs + ys) is proved from the state invariants of C08, for arbitrary states that satisfy them;
empty partial states are neutral.""",
"C10": """Window functions are proved against ghost arrays of the ordered partition, with partition size and row unbounded. RANK and
DENSE_RANK on ties and the single-argument-list convention are known findings.""",
"C11": """Each string function is proved equal to its slicing/searching definition; texts are symbolic (length and characters), search is
an uninterpreted function with its axioms. Cross laws (ELT/FIELD/FIND_IN_SET, STRCMP antisymmetry) are contracts over two calls.""",
"C12": """Documents are an uninterpreted tree (kind, member, elem, parent, depth) so paths and documents are unbounded. Read, write and remove
loops have invariants "the current node is the node after i steps"; frame: every node that is not on the written location is
unchanged (Skolem location). Path text parsing is bounded.""",
"C13": """Month arithmetic is proved over all years, months, days and amounts (integer arithmetic with the real calendar table); the other units are
proved as exact durations. Clock texts and SQL statements are bounded.""",
"C14": """LIKE is specified by matching the pattern against the text character by character (`like`), which the contract ties to the regular
expression the code builds; match types are proved as a fold over their letters; REGEXP and its position/occurrence functions are
proved on top of the contract of `re.finditer` (matches in order, from a start index) with any number of matches. The `re` engine
itself is trusted.""",
"C15": """The wrapper that guards all functions is proved for arbitrary functions, argument counts and results; every built-in function is
run through it with generated arguments (bounded).""",
"C16": """The registry of intermediate results is proved as a reference-counting automaton: counts as arrays over all names, `history` proves
the invariant over every sequence of register/use/unuse/free, `released` proves exactly-once deletion, `every_end_is_told` and
`query_end` prove that each way a task ends (result, exception, interrupt) reports once. Registration is proved for one name of
every prefix class. Streaming of several batches over an accumulated memory table is outside.""",
"C17": """Queue order is proved for a queue of any length with a ghost history (position of each task, tasks added while running), entering
and leaving nested executions on normal, exceptional and signal exits; threads, embedding, whole scripts and the values variables have in
later statements are bounded (known finding set-literal-order).""",
"C18": """The output function is proved for any number of rows and columns (rows as uninterpreted maps, Skolem column), one or several
variables; the callers are proved to release the temporary table on every exit.""",
"C21": """The scanner behind quoted names (`SqlParser.read_segment` and the functions it calls) is proved to find exactly the next name of a
fold over the characters, from any position of any text. On that contract, `parse_mapping` is proved for texts with any number of
names: the text around the names is unchanged, every odd name is replaced by a plain identifier that stands for it, equal names
get equal and different names different identifiers (data invariant placeholders/mapping at Skolem names; nested loop over the
letters of a name has its own invariant). `to_sql` is proved to restore them. The tokenizer's `_extract_string` is proved equal to a
fold over the characters of a literal, `parse_const` to decode runs of ASCII characters and keep all others. Whole
statements (sqlglot's parser and generator, the plan language) are bounded.""",
"C19": """`compile_where_condition` is proved for each of 13 kinds of condition over arbitrary operands: for one arbitrary row, the condition
is true exactly when the source (whose NULL order and one-condition-per-kind habits are part of the specification) lets the row
through and what is returned for local evaluation is true; the recursion is closed by the contract of the parts. Conditions
already given to the source are an arbitrary sequence (loop invariant at a Skolem position). `mysql_and/or/not` are proved
three-valued. `compile_having_condition` is proved for 15 kinds of condition over arbitrary operands: the term it gives is true, false
or unknown on a row of the result exactly when the condition is, its columns are those of the result, and exactly a condition on a
column that the result lacks is refused. Whole statements (which also exercise `compile_calculate`, the parser's precedence and the
library's loaders) are compared with a three-valued oracle, bounded.""",
"C20": """`compile_limit` is proved: for any LIMIT, OFFSET, row count and combination of clauses, the positions kept by the plan (an
interpreter of the loader's `@limit` and of the slice steps is the specification) are exactly m..m+n, and reading stops early only
where rows read are rows of the result. Where in `compile_select`/`compile_union` it is called is covered by statements, bounded.""",
"C23": """How an ON condition is divided is proved for every condition: whatever its operands are, whatever keys and conditions the joined
table already has, the condition is true exactly when the keys are equal to the values they are looked up by, the source lets the
row through and the conditions checked locally are true; keys come with a value that does not use the joined table, the source is
only given values that are the same for all rows, no earlier condition is replaced, and each column of another table that is
needed is known to the join (`on_split`, contract of `parse_on_condition`, by induction over AND).  Whole statements over arbitrary small tables are compared with the nested-loop definition of a join (bounded): one joined table with
up to four of 74 further ON conditions of every documented form, repeated keys, NULLs and WHERE; two joined tables in every pair
of kinds; chains of four tables joined to any earlier ones; every select form on either a table or a subquery; DISTINCT, GROUP BY,
HAVING, ORDER BY and LIMIT over the joined rows. RIGHT, FULL and CROSS joins are not covered.""",
"C25": """How INSERT is compiled is proved for every statement of six forms (`compiled`: a query, a union, VALUES, with and without columns):
the table named is written in the first known mode written after it (any number of options), the key is "id" or the first
column, the query of the statement decides the rows, and the values read are exactly those of each row under its own column with
the declared type (any number of rows and columns; loop invariants), rows of another number of values than columns being refused;
`computed_values`: rows with expressions become one UNION ALL of a select per row, in order, each value under its column
(`compile_insert_into`, `compile_insert_into_calculate_values`).  What `parse_table`, `compile_select` and `compile_union` make of
their parts is decided on whole statements.  Statements are compared with what the query returns by itself and with the definition of the modes on the rows of the target
(bounded: 26 select forms, 13 spellings of the mode, rows of VALUES from 25 constants and expressions).""",
"C26": """The two row functions a union is built from are proved for any number of rows: `RowRenameCalculater` gives every value of every row
its new name by position, `RowDistinctCalculater` keeps exactly the first of equal rows (loop invariant; hashable and unhashable
rows). `compile_union` is proved for any number of selects, any operators between them and any nesting (`united`: induction over the
tree for how it is flattened, one invariant for the union of the selects before the last UNION without ALL, one for the plans, one
for renamed columns): each select is compiled exactly once and in order into the table the plan reads, without its parentheses,
columns of other names renamed by position, other numbers of columns refused; duplicates are removed up to the last UNION without
ALL; ORDER BY, LIMIT and OFFSET at the end belong to the whole; the output is kept. Whole statements (random nested unions) are
compared with the definition, bounded.""",
"C27": """`compile_calculate` is proved for one level of every form of expression (`term`, 61 forms: operators, comparisons, AND, OR,
NOT, IS, BETWEEN, the three forms of IN, IF, IFNULL, COALESCE and CASE of any number of parts, fixed functions, columns, constants,
subqueries), the parts known by the contract of the recursive call (structural induction): the term evaluates to the value the form
denotes, the parts are compiled for the same plan, tables and join, and no object occurs twice in the term, because the core
rewrites terms in place. CASE and COALESCE recurse over local functions: the body is proved once for an arbitrary position, with the
rest known by the induction hypothesis, positions increasing. Calls by name, GREATEST and CONCAT are proved for any number of arguments (loop invariant), as are tuples, CAST, INTERVAL and variables. Other functions, and the
core's evaluation of the term, are bounded: seeded random expressions in thirteen statement shapes against three-valued
evaluation in Python. `parse_calculate` is proved for the same forms (`columns_read`): the columns of every part that is no constant, for
lists those of an arbitrary position, are made known to the plan, in the same list and table. `parse_aggregate` with
`is_calculate` and `is_aggregate` is proved in the same way (`aggregates_within`): every aggregate of an expression is found. Found and repaired: simple CASE with constant WHENs (duplicates, NULL, '1' and 1), CASE without ELSE,
COALESCE of one value, terms shared between the condition and the value of IFNULL, COALESCE and CASE.""",
"C24": """`RowSortCalculater` is proved for any number of rows and keys against the definition of a stable arrangement (comparison
function of the specification; Python's `sorted` is trusted to be stable and ordered by its key). `compile_order` is proved for any
clause and any select list: each key is resolved to the output column the specification names, or all of them to source columns.
Statements are compared with the sorted result of the statement without ORDER BY, bounded.""",
"C22": """Both functions are proved over sequences of rows of any length (harness loop with the invariant "n rows so far"), with a second
column interleaved that must not disturb the first; whole queries are bounded.""",
}
TAIL = """## Statements narrowed to what the system promises
* C10: RANK/DENSE_RANK on ties and single list arguments are known findings; PERCENT_RANK and CUME_DIST are not included.
* Streaming a query in batches over a memory subquery re-reads accumulated rows: outside C16.

## False alarms
Every alarm on the unchanged tree was either a defect (repaired or recorded, listed above) or a fault of the check: a contract
stronger than what the property says, or a model of a Python operation that differed from CPython. The latter were corrected in
the contract or in pyvc; the cross check against CPython exists to find exactly those. No false alarm is listed as a finding.
"""
