"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})
S = "syncanysql/"
prop("C01", "Script splitting keeps every statement, whole and in order",
 "Splitting a script yields each of its statements exactly once, in order, as the exact source text from its first letter or opening parenthesis up to (not including) its terminating semicolon or the end of the script, together with the line it starts on. "
 "A semicolon, quote or comment marker inside quoted text (backslash escapes the next quote) or inside a #, -- or /* */ comment never splits, merges, drops or alters a statement. "
 "Quoted text or a block comment that is never closed is reported as an end-of-input error, never silently truncated.",
 ["inputs"], "every script text: any length, any characters, any nesting of quotes, escapes, comments and semicolons",
 "The tests run a few well formed example scripts; the guarantee is about every text, including quotes in comments, escape runs and unterminated text.",
 [S+"parser.py"], [("SqlParser.split / skip_escape / read_util", S+"parser.py")],
 [("index, lineno", "scan position and its line", S+"parser.py SqlParser")], ["SqlParser(text).split()", "ScriptEngine.execute"])
prop("C02", "Variable reads resolve to the innermost scope that defines them",
 "Reading a variable returns the value held by the innermost scope that defines it under that exact name, or (in the same scope, for a name starting with @) under the name without the @; only if neither is defined there are the enclosing scopes consulted outwards, and if none has it a lookup with a default gives the default and one without reports the name as unknown. "
 "A value that is NULL counts as defined. Assigning a variable changes that one name in the current scope (or the global scope for a global assignment) and nothing else, and reading changes nothing.",
 ["inputs", "histories"], "every chain of scopes, every content of each scope, every name and default, every sequence of assignments and reads",
 "Tests read a handful of variables in one or two scopes; shadowing, NULL values and @-aliases across arbitrary chains are never sampled.",
 [S+"executor.py", S+"calculaters/env_variable_calculater.py", S+"taskers/set.py"],
 [("EnvVariables.get_value / get", S+"executor.py"), ("CurrentEnvVariableCalculater", S+"calculaters/env_variable_calculater.py"), ("SetCommandTasker.set_env_variable", S+"taskers/set.py")],
 [("env_variables / parent", "scope contents and enclosing scope", S+"executor.py EnvVariables")], ["@var in a query", "${var} in a statement"])
prop("C03", "Placeholder interpolation substitutes each variable exactly once",
 "Running a statement first replaces each ${name} or ${name:default} placeholder by the text of the variable's value (the name is looked up as written, then in lower case), falling back, when the variable is unknown, to the result of the default read as a function call name(arguments) with comma-separated literal arguments (commas inside quoted arguments do not separate), and otherwise to the default text itself; all other text of the statement is left unchanged, and text that came from one placeholder's value is not itself interpolated. "
 "Values are rendered as: true/false/null for booleans and NULL, session date/time formats for temporal values (temporal values nested in lists too), a parenthesised comma-joined list for sequences, and the plain text otherwise.",
 ["inputs", "configurations"], "every statement text, every set of placeholders, every variable value and session format",
 "Tests interpolate a few scalar variables; rendering by type, repeated placeholders and values that look like placeholders are not covered.",
 [S+"executor.py"], [("Executor.compile_variable", S+"executor.py")], None, ["Executor.run", "ScriptEngine.execute"])
prop("C04", "Configuration layers merge predictably and sessions stay isolated",
 "A session's effective configuration is its parent's effective configuration overlaid by the session's own settings: dictionary sections are merged key by key, databases and caches are merged by name (later fields win, other entries and fields survive; a database's virtual views are in turn merged by name), list sections are appended, and every other key is replaced. "
 "Setting or unsetting a key in a session is visible to the next read in that session, touches only the addressed entry, and never changes the parent's or a sibling session's configuration; reading is idempotent.",
 ["inputs", "histories", "configurations"], "every pair of parent and session configurations and every sequence of set, unset and read operations",
 "Tests set one or two options; isolation and last-write-wins must hold for every key path, layering depth and order of operations.",
 [S+"config.py"], [("GlobalConfig.set / merge_config", S+"config.py"), ("SessionConfig.get / set", S+"config.py")],
 [("config, merged_config, tasker_extend_config", "own layer and cached merges", S+"config.py SessionConfig")], ["SET @config...", "SHOW / query planning"])
prop("C05", "Literal text is read as the value it denotes",
 "A literal given to SET or to a placeholder default argument is read as the value it denotes: quoted text as that text (SET drops white space at its ends), true/false/null case-insensitively, an optionally negative run of digits as that integer, and an optionally negative digits.digits as that decimal number. "
 "Anything else is never silently read as a number, boolean or NULL: SET reports it as unknown (or evaluates it as an expression), placeholder arguments keep it as text. A script argument --name=value defines the variable with the text after the first =, without the quotes around it; a bare --name defines it as true. Setting a variable this way changes no other variable, and a statement that is reported stores nothing.",
 ["inputs"], "every literal text",
 "Tests assign a few literals; sign, dot, quote and case combinations are unbounded.",
 [S+"taskers/set.py", S+"utils.py"], [("SetCommandTasker.parse_value", S+"taskers/set.py"), ("parse_value", S+"utils.py")], None, ["SET @x = literal"])
prop("C06", "Comparison operators follow three-valued SQL logic",
 "=, !=, >, >=, <, <= return NULL when either side is NULL and otherwise 1 or 0; numbers compare by value, strings compare as strings, and mixed operands are coerced to the left side's kind before comparing, so = and != are always opposite and > with <=, < with >= are always opposite. "
 "IN is 1 if some element equals the value, else NULL if the value or some element is NULL, else 0; NOT maps NULL to NULL and flips truth; IS and IS NOT never return NULL for NULL operands and are always opposite.",
 ["inputs"], "every pair of operand values of every SQL type and every IN list",
 "Tests compare a few same-typed constants; the NULL and mixed-type matrix with arbitrary values is not enumerable.",
 [S+"calculaters/mysql_funcs/logical_funcs.py", S+"utils.py"], [("mysql_eq .. mysql_exists", S+"calculaters/mysql_funcs/logical_funcs.py"), ("ensure_number / ensure_str", S+"utils.py")], None, ["WHERE / HAVING / SELECT expressions"])
prop("C07", "Numeric functions propagate NULL and coerce operands leniently",
 "Every numeric and bitwise function returns NULL when any required operand is NULL, and otherwise the mathematical result on the operands' numeric values, where text counts as its leading number, dates and times as their digit form, and booleans as 0/1; results do not depend on whether a number was given as a number or as its text. "
 "Text that has no leading number, division by zero and domain errors surface as an error inside the function, never as a wrong number.",
 ["inputs"], "every operand value of every SQL type for every numeric function",
 "Tests evaluate each function on one or two constants; the NULL and text coercion behaviour must hold for all operands.",
 [S+"calculaters/mysql_funcs/number_funcs.py", S+"utils.py"], [("mysql_* numeric functions", S+"calculaters/mysql_funcs/number_funcs.py"), ("ensure_number/ensure_int/ensure_float/parse_number", S+"utils.py")], None, ["SELECT expressions"])
prop("C08", "Aggregates ignore NULL and equal their definition over the group",
 "For every sequence of values in a group, COUNT is the number of non-NULL values, COUNT(DISTINCT) the number of distinct non-NULL values, SUM and AVG the sum and mean of the non-NULL numeric values, MAX/MIN the extreme of the non-NULL values (of comparable kinds), BIT_AND/OR/XOR the bitwise fold, and GROUP_CONCAT/GROUP_ARRAY/JSON_ARRAYAGG the non-NULL values in order, GROUP_UNIQ_ARRAY the distinct ones and JSON_OBJECTAGG the last value per key. "
 "A NULL, or for SUM and AVG a value that is not numeric, never changes the aggregate, and an aggregate over no non-NULL value gives its documented empty value.",
 ["inputs", "histories"], "every finite sequence of values of every SQL type, in every order",
 "Tests aggregate fixed small tables without NULLs in awkward positions; the statement is inductive over arbitrary sequences.",
 [S+"calculaters/aggregate_calculater.py"], [("*.aggregate / *.final_value", S+"calculaters/aggregate_calculater.py")],
 [("aggregate state", "per group partial value", S+"calculaters/aggregate_calculater.py")], ["GROUP BY queries"])
prop("C09", "Merging partial aggregates equals aggregating everything at once",
 "However the rows of a group are split into consecutive batches, aggregating each batch separately and merging the partial states in order gives the same state, and so the same final value, as aggregating all rows in one pass; batches with no contributing rows change nothing. "
 "Merging never loses, duplicates or reorders contributions.",
 ["inputs", "schedules"], "every sequence of rows and every way of splitting it into batches, for every aggregate that has a partial state",
 "Tests run one batch size over one file; the claim is for all splits of all inputs.",
 [S+"calculaters/aggregate_calculater.py", S+"taskers/query.py", S+"compiler.py"], [("*.reduce", S+"calculaters/aggregate_calculater.py"), ("compile_reduce_config / run_reduce", S+"taskers/query.py")], None, ["SET @batch = n + GROUP BY"])
prop("C10", "Ranking and offset window functions follow the ordered partition",
 "Within each ordered partition ROW_NUMBER counts 1..n; RANK is one plus the number of rows strictly before the row's peer group, DENSE_RANK one plus the number of distinct preceding order values; LAG/LEAD/NTH_VALUE/FIRST_VALUE/LAST_VALUE return the addressed row's value or the given default (else NULL) when it falls outside the partition. "
 "NTILE(n) of a row is a bucket in 1..n that never decreases along the partition, and is NULL for n <= 0.",
 ["inputs"], "every partition: any length, any ties, any order values, any offsets and defaults",
 "Tests use one four-row partition per function with no ties and offset one.",
 [S+"calculaters/window_calculater.py"], [("order_aggregate / final_value of the window classes", S+"calculaters/window_calculater.py")], None, ["OVER (PARTITION BY .. ORDER BY ..)"])
prop("C11", "String functions slice, search and compare as documented for every text",
 "For every text and in-range arguments LEFT, RIGHT, SUBSTRING, INSERT, REPEAT, REVERSE, CONCAT, ELT, FIELD, FIND_IN_SET, STRCMP, STARTSWITH, ENDSWITH, CONTAINS, TRIM, UPPER, LOWER and the length functions return the text, position or length their SQL definition gives with 1-based positions, and a NULL subject gives NULL. "
 "ELT, FIELD and FIND_IN_SET agree with each other: picking the position found gives back the value searched for.",
 ["inputs"], "every text, position and length",
 "Tests call each function once; off-by-one behaviour at the first, last and empty positions needs all inputs.",
 [S+"calculaters/mysql_funcs/string_funcs.py"], [("mysql_* string functions", S+"calculaters/mysql_funcs/string_funcs.py")], None, ["SELECT expressions"])
prop("C12", "JSON path reads, writes and removals address exactly one location",
 "Reading a JSON path returns the value at that location, or NULL if some step is missing or of the wrong kind (a name needs an object, an index an array or a text, whose character it is). Setting a path whose parent exists (an object for a name, an array for an index; an index past the end of an array appends) makes a later read of it return the new value and leaves every other location unchanged; removing a path deletes exactly that location and leaves the rest unchanged, and removing a missing path, or setting one whose parent is missing, changes nothing; the document given is itself never changed. "
 "Container queries (length, keys, depth, contains) agree with the document.",
 ["inputs"], "every JSON document, every path and every value",
 "Tests address one level of small documents; nesting depth, index/key mixes and missing steps are unbounded.",
 [S+"calculaters/mysql_funcs/json_funcs.py"], [("parse_json_path, get/set/remove_json_path_value", S+"calculaters/mysql_funcs/json_funcs.py")], None, ["JSON_EXTRACT / JSON_SET / JSON_REMOVE"])
prop("C13", "Adding and subtracting date intervals is calendar correct",
 "Adding or subtracting n years, quarters or months moves to the calendar month that many months away, keeps the time of day and keeps the day of month, or uses that month's last day when it has no such day; weeks, days, hours, minutes, seconds and microseconds shift by exactly that duration. "
 "The result is never NULL while it lies in the supported year range.",
 ["inputs"], "every date-time, unit and amount with a result in years 1..9999",
 "Tests add small fixed intervals to one date; month ends, December and leap days need every date.",
 [S+"calculaters/mysql_funcs/datetime_funcs.py"], [("calculate_datetime", S+"calculaters/mysql_funcs/datetime_funcs.py")], None, ["DATE_ADD / DATE_SUB"])
prop("C14", "LIKE and REGEXP match what their pattern says",
 "LIKE and the REGEXP functions return NULL when text or pattern is NULL. In LIKE every character except % stands for itself (ignoring case), % matches any run of characters, and the pattern must match the whole text; LIKE means the same in WHERE, in HAVING and as a value. REGEXP is 1 exactly when its pattern is found anywhere in the text. A number or date counts as its text. "
 "The position, occurrence and return options of REGEXP_INSTR, REGEXP_SUBSTR and REGEXP_REPLACE address the k-th match from the given position, in coordinates of the whole text; REGEXP_REPLACE with occurrence 0 replaces every match from the position, and keeps all other text.",
 ["inputs"], "every text, pattern, position and occurrence",
 "Tests match a few constants; metacharacters in LIKE patterns and repeated occurrences are not covered.",
 [S+"calculaters/mysql_funcs/regexp_funcs.py"], [("mysql_like, mysql_regexp_*", S+"calculaters/mysql_funcs/regexp_funcs.py")], None, ["WHERE x LIKE p"])
prop("C15", "A failing scalar function yields NULL and never aborts the query",
 "Calling any built-in scalar function through the query engine never raises: whatever the number and values of the arguments, it returns either exactly what the underlying function returns for those arguments or, when that function fails, NULL. "
 "The same holds for every arity, and no call affects a later one.",
 ["inputs", "fault_sequences"], "every registered function, every argument tuple and every exception the function may raise",
 "Tests never make a scalar function fail; the guarantee ranges over all functions, arities and failures.",
 [S+"calculaters/mysql_calculater.py"], [("MysqlCalculater.calculate / calculate0..4", S+"calculaters/mysql_calculater.py")], None, ["any scalar function in a query"])
prop("C16", "Temporary results live until their last user, then are freed once",
 "The intermediate result of a subquery, CTE or union stays readable until every task registered as its user has finished with it, and is released exactly once, after the last of them finishes, whether it succeeds or fails; a result that has not been released belongs to a pending user, and unrelated results are never released.",
 ["histories", "schedules", "fault_sequences"], "every sequence of register, use, finish and free operations over any set of results and users",
 "Tests run a few nested queries and cannot observe a premature or missed release for all histories.",
 [S+"taskers/query.py", S+"executor.py"], [("QueryTaskerTemporaryMemoryManager", S+"taskers/query.py"), ("Executor.clear_temporary_memory_collection", S+"executor.py")],
 [("temporary memory references", "who still needs a result", S+"taskers/query.py")], ["memory database contents after a script"])
prop("C17", "Statements run in order and nested scripts restore the caller",
 "Statements of a script are started in source order and their tasks run first-in first-out, each exactly once, even when a task adds further tasks; a failing task is reported, and is no longer the current task. "
 "Entering a nested execution or context makes it the current one and leaving it, normally or by an error, makes its parent current again; the current execution belongs to its thread and is none when nothing runs. A script that fails is abandoned: none of its remaining tasks runs later. A value given to a variable by SET or SELECT .. INTO is the one later statements of the script compute with, until the variable is assigned again. Task numbers are unique and increasing across nested executions.",
 ["histories", "fault_sequences"], "every queue of tasks, every task outcome and every nesting of executions",
 "Tests run linear scripts; failing tasks, tasks adding tasks and nested contexts in arbitrary order are not sampled.",
 [S+"executor.py", S+"__init__.py", S+"taskers/execute.py"], [("Executor.run/execute/__enter__/__exit__", S+"executor.py")], [("runners, tasker", "pending queue and current task", S+"executor.py Executor")], ["ScriptEngine.execute"])
prop("C18", "SELECT INTO stores exactly the selected rows in its variables",
 "SELECT ... INTO one variable stores: for a single column, its value when one row was returned and the list of values in row order otherwise; for several columns, one record (or the list of records in row order) of exactly the selected columns; for SELECT *, the record(s) as returned (a single row of a single column is stored as its value). "
 "With several variables, variable i receives column i (a scalar for one row, the list in row order otherwise) and surplus variables become NULL. No other variable changes; all rows of the query are stored, also when it is processed in batches; the intermediate result is removed whether the query succeeds or fails, and a failing query changes no variable.",
 ["inputs"], "every result set: any number of rows and columns, missing fields and NULLs, any number of variables",
 "Tests store one or two values; the row-count by column-count by variable-count matrix is not covered.",
 [S+"taskers/into.py"], [("IntoTasker.start / run", S+"taskers/into.py")], None, ["SELECT .. INTO @a, @b"])
prop("C19", "WHERE conditions are neither lost nor invented when pushed down",
 "A row is selected by a query if and only if the whole WHERE condition is true for it (not false and not unknown): whatever part of a condition is handed to the data source as a filter, and whatever part is kept for local evaluation, together they are equivalent to the written condition in three-valued logic, with operand order and comparison direction preserved (5 < v is v > 5). "
 "A comparison with NULL is unknown, AND, OR, NOT, BETWEEN and IN follow from it, and AND binds tighter than OR. A data source only receives comparisons of a column of the query's own table with a value that is the same for all rows; it may order NULL before every value and take one condition of a kind per column, so such rows are checked again and no condition replaces another. "
 "Parts under OR or NOT, or that are not a simple comparison of a column, are never handed down on their own. HAVING likewise keeps exactly the result rows for which its condition is true. (NOT over IN (SELECT ..) with a NULL in that column, and a subquery under OR, NOT or an expression of SELECT *, are outside: the library syncany does not provide them.)",
 ["inputs", "programs"], "every WHERE condition built from AND, OR, NOT, parentheses, comparisons, IN, BETWEEN, LIKE, IS NULL over columns, expressions and subqueries, and every table content",
 "Tests use a few fixed conditions; the split must be sound for every boolean combination and every NULL.",
 [S+"compiler.py", S+"calculaters/mysql_funcs/logical_funcs.py"], [("compile_where_condition*", S+"compiler.py"), ("mysql_and / mysql_or / mysql_not", S+"calculaters/mysql_funcs/logical_funcs.py")], None, ["SELECT .. WHERE", "SELECT .. HAVING"])
prop("C20", "LIMIT and OFFSET cut the final result only",
 "A query with LIMIT n (OFFSET m, or LIMIT m, n) returns exactly rows m+1 .. m+n of the result the same query has without LIMIT (none for LIMIT 0 or an offset behind the last row): filtering, joining, grouping, aggregation, window functions, DISTINCT, HAVING and ordering all happen before the cut, and the LIMIT of a UNION cuts the whole union. The data source is told to stop reading early only where every row it reads is a row of the result. The same holds for a limited query used as a subquery, in WITH or by INSERT. (Processing a query in batches with @batch cuts every batch and is outside.)",
 ["inputs", "programs", "configurations"], "every query shape combining LIMIT/OFFSET with the other clauses, and every table content",
 "Tests use LIMIT in two fixed queries; whether the cut is placed late enough depends on every combination of clauses.",
 [S+"compiler.py", S+"taskers/query.py"], [("compile_limit / compile_select", S+"compiler.py")], None, ["SELECT .. LIMIT"])
prop("C21", "Quoted names and literal values keep their exact text",
 "A back-quoted name, whatever characters it contains, reaches the query plan unchanged: replacing quoted names by placeholders for parsing and restoring them afterwards is lossless, and rewriting a query back to SQL text does not alter names or literals. "
 "The same name is the same identifier wherever it is written, different names are different identifiers; inside a name two back-quotes stand for one, and quotes and comment marks inside a name, or back-quotes inside texts and comments, change nothing. (Once in the plan, a name is read by the plan language: the characters . | * : [ ] < >, a leading $ and a trailing ? keep the meaning they have there; a backslash directly before a closing back-quote escapes it when a script is split, see C01.) "
 "A text literal denotes its characters: two quotes or a backslash and a quote stand for the quote, the other backslash escapes are decoded (unknown ones, such as \\%, stand for themselves). Number, boolean, NULL, hex and bit literals denote exactly their value, and a minus before a number literal its negative; a minus before anything else is calculated, never dropped. (What SET accepts as a literal is C05.)",
 ["inputs", "programs"], "every quoted name and every literal",
 "Tests use ordinary names and small literals; paths, URLs and symbols in names range over all text.",
 [S+"compiler.py"], [("Compiler.parse_mapping / to_sql / parse_const", S+"compiler.py")], [("mapping", "placeholder to original name", S+"compiler.py Compiler")], ["SELECT .. FROM `weird name`"])
prop("C22", "Row numbering and previous-row functions see each row once, in order",
 "The row-index function returns 1, 2, 3, ... for successive rows of one query column and every use starts again at 1; the previous-row function returns NULL (nothing) for the first row and afterwards exactly the value given for the preceding row; uses in different columns or queries never share state.",
 ["histories"], "every sequence of rows and any number of simultaneous uses",
 "Tests look at one use over one table; independence of instances needs all interleavings.",
 [S+"calculaters/row_calculater.py"], [("RowIndexCalculater, RowLastCalculater", S+"calculaters/row_calculater.py")], None, ["row_index(), row_last(x)"])
prop("C23", "A join pairs rows exactly when the whole ON condition holds",
 "The rows of a query over FROM a .. JOIN b ON c are: every row of a with every row of b for which the whole condition c is true, and, for LEFT JOIN and for plain JOIN (which the documentation defines as a left join), each row of a without such a row of b once with all columns of b NULL; INNER JOIN leaves those out. c contains at least one equality of a column of b with a value of the other tables, and any further conditions that involve b: comparisons with constants, variables, subqueries or columns of either table, IN, BETWEEN, LIKE, IS NULL, OR; a comparison with NULL is not true. Several joins are applied one after the other, each of its own kind, and a later ON may use columns of earlier joined tables. WHERE, GROUP BY, HAVING, DISTINCT, ORDER BY and LIMIT are applied to the joined rows, and every selected expression sees the paired row. It makes no difference whether a side is a table or a subquery.",
 ["inputs", "programs"], "every pair of tables, ON condition, kind of join and rest of the statement", "Tests join fixed small files on unique keys; repeated keys, NULLs, several conditions on a column and mixed kinds of joins are not sampled.",
 [S+"compiler.py"], [("parse_joins / parse_on_condition / compile_join_column / optimize_rewrite_inner_join", S+"compiler.py")], None, ["SELECT .. JOIN"])
prop("C24", "ORDER BY sorts the final result by every key in order",
 "The rows of a query with ORDER BY are exactly the rows of the query without it, arranged by the listed keys from most to least significant, each in its own direction (ascending unless DESC is written), NULL before every value (after them for DESC); rows equal on all keys stay in the order they had. "
 "A key names an output column of the select list: by its name, or as the column a.v or the expression that is selected (then the output column holding exactly that column or expression, whatever it is called); with SELECT * any column. Only when all keys are plain columns of the query's own table may the data source sort instead. A statement whose keys are neither is refused, not sorted by something else. ORDER BY after a UNION sorts the whole union.",
 ["inputs", "programs"], "every table, select list, key list and direction", "Tests sort fixed tables by one key; NULLs, ties, equal names of different columns and mixed directions are not sampled.",
 [S+"compiler.py", S+"calculaters/row_calculater.py"], [("compile_order / parse_order_select_column", S+"compiler.py"), ("RowSortCalculater", S+"calculaters/row_calculater.py")], None, ["SELECT .. ORDER BY"])
prop("C25", "INSERT writes exactly the selected rows or the values given, in the mode chosen",
 "INSERT INTO t SELECT .. (with joins, grouping, DISTINCT, ORDER BY, LIMIT, WITH, UNION ..) applies exactly the rows that query returns by itself to t, with their column names, in the mode written after the name (`t<UI>`, in any case, the first known one of a list; without one I): I appends every row; U replaces the values in rows of t with the same key and adds none; UI also adds the rows whose key is new; UDI also deletes the rows of t whose key is not among the written ones; DI leaves exactly the written rows. The key is the first plain output column of the query's own table, or the columns marked <pk>. Rows that are not concerned stay as they were. "
 "INSERT INTO t (columns) VALUES .. writes one row per tuple, in order, each value being the value of the constant or expression written, with its own type, under its own column; a tuple with more or fewer values than columns is refused and nothing is written. (UDI and DI on a query with a WHERE that its source evaluates delete only rows which that condition covers; not examined.)",
 ["inputs", "programs"], "every target content, query or list of values and mode", "Tests write fixed rows once per mode; modes combined with UNION, LIMIT, renamed key columns and mixed value types are not sampled.",
 [S+"compiler.py"], [("compile_insert_into / compile_select (output)", S+"compiler.py")], None, ["INSERT INTO `t<UI>` .."])
prop("C26", "UNION returns the rows of its selects under the columns of the first",
 "The rows of s1 UNION ALL s2 .. are the rows of s1, s2, .. in this order; the values of each select appear by position under the column names of the first one. UNION without ALL keeps exactly one of equal rows among everything up to and including the select after it, where rows are equal when all their values are equal, NULL being equal to NULL; rows that are not equal are all kept. Selects with different numbers of columns are refused. The result is the same as a subquery, in WITH, as source of INSERT or inside another union, and LIMIT, WHERE, GROUP BY .. of one select concern only that select.",
 ["inputs", "programs"], "every list of selects and their results", "Tests unite two selects with the same column names and no duplicates.",
 [S+"compiler.py", S+"calculaters/row_calculater.py"], [("compile_union", S+"compiler.py"), ("RowDistinctCalculater, RowRenameCalculater", S+"calculaters/row_calculater.py")], None, ["SELECT .. UNION SELECT .."])
prop("C27", "An expression has the value its structure denotes",
 "On every row, an expression built of columns, constants, operators, comparisons, AND, OR, NOT, BETWEEN, IN, IS NULL, IF, IFNULL, COALESCE, CASE and functions has the value its structure denotes from the values of its parts: every operator is applied to its operands in their order, parentheses change nothing else, IF chooses by whether its condition is true, IFNULL and COALESCE give the first value that is not NULL and NULL where there is none, CASE gives the result of its first condition that is true (or first value that is equal, NULL being equal to nothing), otherwise that of ELSE, or NULL without ELSE. This is so for any nesting and number of parts, and wherever the expression is written: as a column, twice in one statement, in WHERE, ORDER BY, inside an aggregate, over aggregates of a group, in a subquery, or over joined tables.",
 ["inputs", "programs"], "every expression and row", "Tests calculate a few fixed expressions on rows that are never NULL.",
 [S+"compiler.py"], [("compile_calculate", S+"compiler.py"), ("parse_calculate, parse_aggregate", S+"compiler.py"), ("compile_select_calculate_column", S+"compiler.py")], None, ["SELECT <expression> .."])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
