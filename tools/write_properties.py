"""Writes properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os

P = []


def prop(id_, title, statement, over, text, tests, files, mechanism, observe=(), state=()):
    P.append({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": tests,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


S, PL, PM, SA, ME, FI, CO, CM, MA = ("subsetter/%s.py" % n for n in (
    "solver", "planner", "plan_model", "sampler", "metadata", "filters", "common", "config_model", "__main__"))

prop("C01", "Foreign keys hold in every sample",
     "For every schema and target selection the planner accepts, and every source database that satisfies its foreign keys, each non-null foreign key of a sampled row refers to a row that is sampled too. "
     "This holds for nullable, composite, parallel and cross-schema foreign keys, for configured extra foreign keys, for passthrough tables, and for randomly sampled targets; only relationships the user asked to ignore are exempt.",
     ["inputs", "configurations"],
     "all table contents (keys, NULLs, random draws) over all foreign-key graphs, column shapes and target choices within the bounds",
     "The live tests sample four fixed schemas with fixed data; none varies the contents, the graph shape or the random draws.",
     [PL, PM, SA, S, ME],
     [("sampling order", "solver.order_graph"), ("foreign-key joins per table", "planner.Planner._plan_table"),
      ("query construction", "plan_model.SQLStatementSelect.build"), ("materialisation of referenced tables", "sampler.Sampler._materialize_tables")],
     ["rows handed to the output for each table"])

prop("C02", "Every table samples exactly the documented rows",
     "A sampled table contains, without duplicates: if it is not a target, the rows whose every foreign key to an already sampled table has a sampled match (relationships followed forwards), or the rows referenced by at least one sampled row (followed backwards); if it is a target, the union of its own criteria and the rows that other sampled tables reference. "
     "No other row is brought in, and no such row is left out.",
     ["inputs", "configurations"],
     "all table contents over all accepted foreign-key graphs and multi-target selections within the bounds",
     "The live tests compare a handful of fixed datasets; no test has a target reached from another target, or a table reached through several joins with varying data.",
     [PL, PM, SA],
     [("union/intersection choice", "planner.Planner._plan_table"), ("join and exists construction, grouping", "plan_model.SQLStatementSelect.build"),
      ("union merging", "plan_model.SQLStatementUnion.simplify")],
     ["rows handed to the output for each table"])

prop("C03", "A valid sampling order is found exactly when one exists",
     "For every foreign-key graph and set of targets, planning yields an order that contains each table related to a target exactly once and in which every table's links to earlier tables all run in one direction, with at least one such link unless it is a target. "
     "It fails only when the related tables contain a directed foreign-key cycle, then naming an actual cycle, and the result does not depend on any internal iteration order.",
     ["inputs", "schedules"],
     "all directed graphs up to the stated size, all target sets, all iteration orders of the edge sets",
     "The solver tests run fixed graphs and 1000 random acyclic graphs with one seed; cyclic graphs, iteration orders and failure precision are not covered.",
     [S, PL], [("phase-wise topological order", "solver.order_graph"), ("reachability and cycle detection", "solver.toposort_reachable"), ("plain topological sort", "solver.toposort")],
     ["return value or raised error of the ordering"])

prop("C04", "Simplifying a plan never changes the rows it selects",
     "For every plan query - any nesting of and/or, comparisons, membership tests (negated or not, over lists or sub-queries), random and constant conditions, joins, column lists, limits and unions - the simplified query selects exactly the rows the original selects, for every database, including when conditions evaluate to NULL.",
     ["programs", "inputs"],
     "all statement trees up to the stated depth and width, all database contents, three-valued truth of every atom",
     "Tests only see the simplification of the few statements that the fixed plans contain.",
     [PM], [("clause simplification", "plan_model.SQLWhereClause*.simplify"), ("select/union simplification", "plan_model.SQLStatementSelect.simplify, SQLStatementUnion.simplify")],
     ["built queries before and after simplification"])

prop("C05", "A saved plan samples the same as a direct subset run",
     "Writing a plan to a file and sampling from that file executes the same queries, with the same parameters and the same passthrough treatment, as planning and sampling in one action; every plan the planner can produce survives the round trip.",
     ["programs", "configurations"],
     "all plans reachable from the configuration space within the bounds",
     "The live tests pass the plan object in memory and never write it out or read it back.",
     [MA, PM, PL], [("plan serialisation", "__main__._main_plan"), ("plan validation", "__main__._main_sample, plan_model.SubsetPlan")],
     ["statements executed on the source"])

prop("C06", "Target criteria are intersected as configured",
     "A target's own rows are exactly those that satisfy all of its percent, like, in and sql criteria and the table's constraints, with any number of values and patterns per column; 'all' overrides the criteria but not the constraints, and 'amount' yields exactly that many of the matching rows, or all of them if fewer match. "
     "A constraint that would drop rows which sampled rows depend on is refused.",
     ["inputs", "configurations"],
     "all combinations of criteria and all table contents within the bounds, all random draws",
     "Only 'in' on one column is ever exercised by a test.",
     [PL, PM], [("criteria translation", "planner.Planner._plan_table"), ("where/limit construction", "plan_model.SQLStatementSelect.build")],
     ["rows handed to the output for the target table"])

prop("C07", "Compaction renumbers keys densely and consistently",
     "With compaction enabled, the N sampled rows of a compacted table carry exactly the identifiers start..start+N-1 in the compacted column, ordered by the source key, and every foreign key of any sampled table to that column carries the new identifier of the row it referred to; all other values, NULLs and the number of rows are unchanged. "
     "Passthrough tables are never compacted, and compacting a column that is itself a foreign key is refused.",
     ["inputs", "configurations"],
     "all table contents, start keys, and compaction settings over the schema shapes within the bounds",
     "Two fixed datasets are compacted; no composite, self-parallel, nullable or explicitly configured column varies.",
     [SA], [("column selection", "sampler.Sampler._get_compact_columns"), ("row numbering at materialisation", "sampler.Sampler._materialize_tables"), ("foreign-key rewriting joins", "sampler.Sampler._copy_results")],
     ["rows handed to the output"])

prop("C08", "Merging never collides and keeps foreign keys intact",
     "In merge mode, no sampled row of a non-passthrough table receives an identifier already present in the destination or given to another sampled row, rows already in the destination are left untouched, and every foreign key of a merged row refers to the merged copy of the row it referred to in the source - along chains of tables whose key is itself a foreign key, too. "
     "Passthrough rows are inserted unshifted and only where their key is not present yet.",
     ["inputs", "histories"],
     "all source and destination contents (non-negative integer keys) over the schema shapes within the bounds",
     "Merge mode is run once per fixed dataset and only checked for not raising an error.",
     [SA], [("offset computation", "sampler.DatabaseOutput.prepare"), ("offset application", "sampler.DatabaseOutput.output_result_set")],
     ["destination tables after sampling"])

prop("C09", "Multiplicity makes disjoint, self-consistent copies",
     "With multiplier m, each sampled row of a multiplied table is written exactly m times; copies differ in their keys so that no two written rows share a primary key, and in copy i every foreign key to a multiplied table refers to copy i of the row it referred to. "
     "Passthrough and ignored tables are written once and unchanged, NULL keys stay NULL, and columns that are not keys are copied verbatim.",
     ["inputs", "configurations"],
     "all key values and multipliers over the schema and configuration shapes within the bounds",
     "No test uses multiplicity at all.",
     [SA], [("choice of multiplied columns", "sampler.Sampler._get_multiplied_columns"), ("key mapping", "sampler._multiply_column"), ("application", "output_result_set of both outputs")],
     ["rows written to the output"])

prop("C10", "Filters change only the columns they name",
     "For every chain of filters and every row, the output has exactly the source columns minus the omitted ones, in order; each column not named by a filter keeps its value, each named column has what its last filter specifies applied in the configured order, and a conditional filter applies exactly its first matching branch. "
     "Filters naming unknown or repeated columns are rejected up front.",
     ["inputs", "configurations"],
     "all rows (arbitrary values incl. NULL) and all filter chains up to the stated length",
     "Each filter is tested alone on all columns of one row, in column order; chains, partial columns and conditional filters are untested.",
     [FI, SA], [("column indexing", "filters._validate_and_index, FilterColumns"), ("chaining", "filters.FilterViewChain"), ("conditional filters", "filters.FilterMultiplex")],
     ["rows returned by the filter"])

prop("C11", "Anonymised source values never reach the output",
     "When a column is replaced by a built-in anonymising filter (null, zero, constant, random, uuid or fake) or omitted, nothing written to the output for any row or copy of that row depends on the source value of that column, for either kind of output and together with multiplicity, merging and computed columns; random replacements stay within their configured range, length and alphabet.",
     ["inputs", "configurations"],
     "all source values, all random draws, all placements of the filtered column among the table's columns within the bounds",
     "Filters are tested in isolation with mocked generators; no test runs a filter through the sampler.",
     [FI, SA], [("filters", "filters.Filter*"), ("application before output", "sampler.Sampler._copy_results, output_result_set")],
     ["rows written to the output"])

prop("C12", "Every sampled row is written exactly once, intact",
     "For any number of rows, every sampled row reaches the destination exactly once (times its multiplicity), in order, with each value under its own column, and nothing else is written; this is independent of how many rows are buffered per write, and of which columns the destination computes itself. "
     "A destination that lacks a sampled column is reported as an error instead of dropping data.",
     ["inputs", "configurations"],
     "all row counts relative to the buffer size within the bounds, all values, all placements of computed and omitted columns, both output kinds",
     "No dataset in the tests has more rows than one buffer holds; directory output is untested.",
     [SA], [("buffered insertion", "sampler.DatabaseOutput.output_result_set"), ("JSON lines", "sampler.DirectoryOutput.output_result_set")],
     ["rows in the destination or output files"])

prop("C13", "Destination writes respect foreign-key order",
     "For every schema without foreign-key cycles, a destination table receives rows only after all destination tables it references have received theirs, and is emptied only after all tables referencing it have been emptied, whether the destination tables pre-existed, are created by the run, or are renamed; every planned table is written exactly once.",
     ["inputs", "configurations"],
     "all acyclic foreign-key graphs up to the stated size, all subsets of pre-existing destination tables",
     "The fixed schemas admit few orders, and sqlite does not enforce foreign keys.",
     [SA, ME, S], [("insertion order", "sampler.DatabaseOutput.insert_order"), ("truncation order", "sampler.DatabaseOutput.truncate"), ("topological sort", "metadata.DatabaseMetadata.toposort, solver.toposort")],
     ["sequence of statements on the destination"])

prop("C14", "Truncation clears exactly what sampling requires",
     "Truncating empties exactly the destination tables being sampled into and those that directly or transitively reference them, and no other table; without the truncate option nothing is deleted.",
     ["inputs", "configurations"],
     "all destination foreign-key graphs up to the stated size, all sets of sampled tables, with remapped names",
     "No test uses the truncate option.",
     [SA, ME], [("backward closure", "metadata.DatabaseMetadata.from_engine"), ("truncate", "sampler.DatabaseOutput.truncate")],
     ["statements on the destination"])

prop("C15", "Conflict strategies do what they say on every dialect",
     "When a written row's primary key already exists in the destination: 'skip' leaves the existing row unchanged and writes nothing for it; 'replace' overwrites exactly the written non-key columns of that row and leaves columns that are not written alone; 'error' fails. "
     "Rows that do not conflict are inserted unchanged under every strategy, and the behaviour is the same for each supported database, including for tables without a primary key or with only key columns.",
     ["inputs", "configurations"],
     "all existing and new rows, key shapes, omitted columns, strategies and dialects within the bounds",
     "Tests only merge-insert passthrough tables ('skip'); 'replace' is never exercised.",
     [SA], [("dialect-specific insert", "sampler.ConflictInsert")],
     ["destination rows after the insert"])

prop("C16", "Created destination tables mirror their source",
     "With the create option, each missing destination table is created under its remapped name with the same columns, types, nullability, primary key, unique constraints, unique and plain indexes and check constraints as its source, and with its foreign keys pointing at the remapped counterparts of the tables that are part of the plan; existing destination tables are not altered, and creation works for every plan the planner produces.",
     ["configurations"],
     "all combinations of keys, constraints, pre-existing tables, renames and selected tables within the bounds",
     "Tables in the tests have only primary and foreign keys, and all or none pre-exist.",
     [SA], [("table creation", "sampler.DatabaseOutput.create")],
     ["DDL issued on the destination"])

prop("C17", "Generated keys never clash with sampled ones afterwards",
     "After sampling into a database whose key sequences do not follow explicit inserts, the next automatically generated key of every written table is greater than every key written into it, and the sequence is never moved backwards.",
     ["inputs", "histories"],
     "all written key values, prior sequence states and table kinds within the bounds",
     "The tests never insert into a destination table after sampling, nor sample into one whose sequence has advanced.",
     [SA], [("sequence update", "sampler._autoincrement_update, _autoincrement_get"), ("maximum written", "sampler.DatabaseOutput.output_result_set")],
     ["statements on the destination sequence"])

prop("C18", "Table renaming is consistent and never merges two tables",
     "Rename rules are applied in the order listed to the full source name; every action on the destination - creating, truncating, reading existing keys, writing - uses the renamed table for exactly its source table. "
     "If two source tables would be renamed to the same destination table the run is refused before anything is written.",
     ["inputs", "configurations"],
     "all rename rule lists and table name sets within the bounds",
     "One fixed rule that renames the schema is used everywhere.",
     [SA], [("renaming", "sampler.DatabaseOutput._remap_table"), ("collision check", "sampler.DatabaseOutput.__init__")],
     ["tables acted on in the destination"])

prop("C19", "Inferred foreign keys are exactly the unambiguous matches",
     "With inference on, a foreign key is inferred from a column to a table exactly when that table is the only one in scope (the same schema, or all schemas if so configured) whose primary key is that single column name and it is a different table; existing foreign keys are kept and never duplicated, and with inference off nothing is added.",
     ["configurations"],
     "all assignments of column names and primary keys to tables and schemas within the bounds",
     "No test enables inference.",
     [ME, PL, SA], [("inference", "metadata.DatabaseMetadata.infer_missing_foreign_keys")],
     ["foreign keys considered in planning and sampling"])

prop("C20", "Connections honour the configured settings and TLS policy",
     "Each connection setting is taken from the configuration if given there, else from the documented environment variable of that role, else from the documented default, and the dialect that results governs every dialect-dependent setting. "
     "If TLS is required, the connection is made with TLS and verifies the server's certificate and identity whenever the configuration says so, on every supported server dialect.",
     ["configurations"],
     "all combinations of present/absent configuration values and environment variables, all dialects and verification modes",
     "Tests connect without TLS and without environment variables.",
     [CO], [("url resolution", "common.database_url"), ("engine options", "common.DatabaseConfig.database_engine"), ("TLS arguments", "common.DatabaseConfig.SSLConfig.get_connect_args")],
     ["arguments that reach the database driver"])

prop("C21", "Layered configuration files merge key by key",
     "When several configuration files are given, every setting has the value from the last file that sets it, mappings are merged recursively key by key, and settings not mentioned in later files are kept; leaving out an optional section gives its documented defaults.",
     ["inputs", "configurations"],
     "all nested documents up to the stated depth and number of files",
     "The command line is never run by the tests.",
     [MA, CM], [("merging", "__main__._get_config")],
     ["resulting configuration"])

prop("C22", "Table selection is closed, exact and safe",
     "The planned tables are exactly the passthrough tables plus the tables that are selected - or, unless disabled, reachable by foreign keys from selected ones - not ignored, and related to a target; ignored tables are never sampled. "
     "A configuration that would break foreign keys (a kept foreign key into an ignored table, a passthrough table depending on a non-passthrough one, a target that is not selected) is refused with an explanatory error, and every other configuration of an acyclic schema is planned.",
     ["configurations"],
     "all foreign-key graphs up to the stated size and all select/ignore/passthrough/target assignments within the bounds",
     "Tests always select everything and ignore nothing.",
     [PL, ME], [("closure", "metadata.DatabaseMetadata.from_engine"), ("validation", "planner.Planner._check_ignore_tables, _check_passthrough_tables, _solve_order")],
     ["tables in the plan, or the error raised"])

prop("C23", "Temporary tables are complete, unique and evaluated once",
     "Each table that another query or renumbering depends on is materialised exactly once before anything reads it, its rows are what the output receives, and no query refers to more copies of a temporary table than exist or to the same copy twice on databases that forbid reopening one; no two temporary tables share a name.",
     ["inputs", "configurations"],
     "all plans reachable from the schema and compaction space within the bounds, each dialect; all table names up to the stated length",
     "Which tables need copies depends on the plan; the tests hold a few fixed plans.",
     [SA, ME, PM], [("materialisation order and counts", "sampler.Sampler._materialization_order"), ("temporary tables", "sampler.TempTableCreator"), ("reference counting", "metadata.DatabaseMetadata.sql_build_context")],
     ["statements executed on the source"])

prop("C24", "The source database is only read",
     "Planning and sampling never insert into, update, delete from, create, alter or drop anything on the source database except temporary tables private to the sampling connection.",
     ["inputs", "configurations"],
     "all configurations and contents explored, with truncate/create/merge/compaction/multiplicity on or off",
     "No test inspects the source after sampling; source and destination are the same server in the tests.",
     [SA, PL, ME], [("temporary tables", "sampler.TempTableCreator.create"), ("separate engines", "sampler.Sampler, sampler.DatabaseOutput")],
     ["statements executed on the source"])

prop("C25", "Passthrough tables are copied verbatim and in full",
     "Every row of a passthrough table, and nothing else, is written unchanged and once, whatever the targets, compaction, multiplicity and merge settings; only configured filters may alter it.",
     ["inputs", "configurations"],
     "all table contents and feature combinations within the bounds",
     "One dataset has a passthrough table, with fixed data and no other feature enabled.",
     [PL, SA], [("passthrough queries", "planner.Planner._plan_internal"), ("exemptions", "sampler.Sampler._get_compact_columns, _get_multiplied_columns, DatabaseOutput.prepare")],
     ["rows written to the destination"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
