PROPS = []
NA = []

TRUST = ('Static decision over the type-checked program (go/ssa), in every calling context from the command\'s entry point; '
         'trusts the Go compiler front end, documented behaviour of libraries, and the models of samber/lo helpers. ')

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier={'over': over, 'text': text},
                      why_tests_cant=' '.join(why.split()),
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], **({'observe_at': observe} if observe else {}), 'hook_needed': None},
                      technique=technique, note=TRUST + ' '.join(note.split())))

def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier={'over': over, 'text': text},
                   why_tests_cant=' '.join(why.split()),
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}, reason=' '.join(reason.split())))

EXAMINERS = ['database/dservice/examiner.go', 'database/mysql/mservice/index_examiner.go',
             'database/postgres/pservice/index_examiner.go', 'database/hasura/hservice/index_examiner.go']
CMDS = ['cmd/db/suggest/mysql.go', 'cmd/db/suggest/postgres.go', 'cmd/db/suggest/hasura/postgres.go']

prop('P01', 'Every index created for an examination is dropped again',
     '''Whenever an examination has created an index in the user's database, that same run drops it before it goes on to
     the next candidate or ends, whether the query in between succeeded or failed. When dropping fails while nothing
     else has failed, the command reports that failure.''',
     ['fault_sequences', 'inputs'], 'every candidate index, every outcome of the creation, of the examined query and of the removal, for the three suggest commands',
     '''Existing tests run one successful examination against a scripted mock; they never make the query fail between
     creation and removal, nor the removal itself, for each database and each candidate.''',
     EXAMINERS, [('deferred DropIndex', 'database/dservice/examiner.go'), ('CreateIndex/DropIndex', 'database/*/*service/index_examiner.go')],
     'path-sensitive typestate over SSA control flow (create/drop pairing on all exits)',
     '''Decides that all control-flow exits after a successful creation pass the removal. Does not cover a process killed
     from outside, nor a database that fails the removal.''', ['statements sent to the database'])

prop('P02', 'Index DDL names exactly the candidate and drops what was created',
     '''The statement that creates an examination index names the candidate's table and all of its columns, each once and
     in the candidate's order. The statement that drops it names the very index that was created (and, for MySQL, the
     same table), whatever the names and their lengths are.''',
     ['inputs', 'histories'], 'every candidate (table, number and order of columns, lengths of names) of the three suggest commands',
     '''Tests compare a few literal statements for short names; shortened names, multi-column orders and name reuse are
     unbounded inputs.''',
     EXAMINERS, [('statement templates', 'database/*/*service/index_examiner.go'), ('index name', 'database/dservice/examiner.go')],
     'symbolic string templates from value-flow analysis, parsed as SQL', '''Decides the text of the statements for all
     values. Does not model the database's own name length limits.''')

prop('P03', 'Only word characters are ever spliced into statements as names',
     '''Table names, column names and index names reach the text of a statement that changes the database, or a catalog
     query assembled as text, only if they consist of ASCII letters, digits and underscores; any other name is refused,
     left out of the examination, or has its other characters replaced.''',
     ['inputs'], 'every index given on the command line, every table and column name returned by the database or found in the query',
     '''Injection is about the unlisted input; tests try one or two bad names.''',
     EXAMINERS + ['database/dmodel/index_target.go', 'database/dmodel/index_column.go'] + CMDS,
     [('word-only match', 'database/dmodel/index_target.go'), ('safe name', 'database/dmodel/index_column.go'), ('filter before examination', 'cmd/db/suggest/*.go')],
     'taint analysis with sanitizer recognition (regular expressions analysed as automata shapes)',
     '''Decides every value spliced into DDL and textual catalog queries. The query the user gives is executed as is, by design.''')

prop('P04', 'Nothing changes the database without --with-examine',
     '''Without --with-examine, the suggest commands send only EXPLAIN of the given query and catalog SELECTs (read_only for
     Hasura). EXPLAIN ANALYZE, which executes the statement, is sent only after the given text has been parsed and found to be exactly one
     SELECT statement.''',
     ['inputs', 'configurations'], 'every query text, combination of flags and calling context of the three suggest commands',
     '''Tests run a handful of SELECTs; a query that is an UPDATE, several statements, or an interaction added on some
     path is outside the samples.''',
     CMDS + ['database/mysql/mservice/explainer.go', 'database/postgres/pservice/explainer.go', 'infra/hasura/client.go'],
     [('runExamination guard', 'cmd/db/suggest/*.go'), ('EnsureSupported before EXPLAIN', 'database/*/*service/parse.go'), ('read_only run_sql', 'infra/hasura/client.go')],
     'effect classification of every database call with path facts along the call path',
     '''Decides every interaction reachable from the commands. A SELECT calling a function with side effects, or taking locks
     (FOR UPDATE), is still a SELECT.''', ['statements sent to the database'])

prop('P05', 'Reported times are those of the query with that very candidate index',
     '''The reported original time is the elapsed time of one execution of the given query (with the given variables) before any index is created;
     the time reported for a candidate is that of one execution while that candidate's index exists. Every examined candidate gets
     exactly one result, and the candidates are all indexes given with --index when there are any, otherwise all suggestions
     with safe names.''',
     ['inputs', 'histories'], 'every list of candidates and every value of --index, --query and --json-variables of the three suggest commands',
     '''Real times differ on every run, so tests can only compare them with a mock's; which clock readings enclose what is
     structure that tests cannot see.''',
     EXAMINERS + CMDS + ['database/dmodel/examination_result.go', 'database/dmodel/examination_index_result.go', 'database/dmodel/index_target.go'],
     [('Execute', 'database/*/*service/index_examiner.go'), ('Run', 'database/dservice/examiner.go'), ('candidate selection', 'cmd/db/suggest/*.go')],
     'value-flow tracing of reported times with dominance ordering of clock readings and statements',
     '''Decides which execution each time belongs to. Caches of the database and clock adjustments are out of reach.''')

prop('P06', 'Suggestions leave out exactly the indexes that already exist',
     '''A candidate is left out of the suggested indexes exactly when an existing index of its table, as read from the
     database's catalog, has the same columns in the same order (letter case ignored). The existing indexes are read for
     the tables of all candidates, and no other filter removes candidates.''',
     ['inputs'], 'every set of candidates and every catalog content of the three suggest commands',
     '''Tests use one or two existing indexes; prefixes, different orders, different numbers of columns and other tables are
     the inputs on which a comparison goes wrong.''',
     ['database/dmodel/index_target.go', 'database/dservice/existing_index_remover.go', 'database/mysql/mservice/index_suggester.go',
      'database/mysql/mservice/index_getter.go', 'database/postgres/pservice/index_getter.go'] + CMDS,
     [('existing index filter', 'database/dservice/existing_index_remover.go'), ('index getters', 'database/*/*service/index_getter.go')],
     'path enumeration of the filter with quantified facts over loops and callbacks',
     '''Decides the filter's condition for all inputs. Which columns the catalog query reads is P17's business.''')


prop('P07', 'No part of a query is overlooked when its columns are collected',
     '''Every expression, table and subquery that the parsed query holds in a place where columns can stand is collected into the
     scope it belongs to, with its own name and qualifier, as a condition column for WHERE, ON and USING and as a referenced
     column otherwise. A node of a type that is not known makes the query refused instead of being passed over. (MySQL subqueries
     inside expressions are deliberately left out.)''',
     ['inputs', 'programs'], 'every member of every syntax node type that the two collectors handle, on every way through the code handling it',
     '''Grammar productions combine without bound; tests use a few dozen queries. A member forgotten in one case of a type switch,
     an early exit from a loop or a condition that skips a clause shows only on a query that has it.''',
     ['database/mysql/mservice/parser/collect_stmt_scopes.go', 'database/postgres/pservice/parser/collect_stmt_scopes.go',
      'database/postgres/pservice/parser/ast_walker.go', 'database/mysql/mservice/parse.go', 'database/postgres/pservice/parse.go'],
     [('scopeCollector', 'database/*/*service/parser/collect_stmt_scopes.go'), ('AST walker', 'database/postgres/pservice/parser/*.go')],
     'exhaustiveness of type switches and member coverage on every control-flow way, against the syntax trees\' own type declarations',
     '''The members that hold expressions are computed from the type declarations of the parsers in use, so a member added by an
     upgrade is an obligation at once. Whether the parsers themselves are right is not decided.''')


prop('P08', 'Queries using what the tool does not model are refused',
     '''A query with a set operation, VALUES in place of SELECT, a WINDOW or WITH clause, a NATURAL JOIN, a table source other than a
     table, join or subquery, or a table name qualified with another schema or database ends in an error and no report. So does one naming
     a table that the catalog does not list or a column that none of its tables has.''',
     ['inputs'], 'every query text given to the three suggest commands',
     '''The constructs combine with every other part of the grammar; a guard that holds for the tested query but not next to a
     GROUP BY, an alias or a third name part is outside the samples.''',
     ['database/mysql/mservice/parser/collect_stmt_scopes.go', 'database/postgres/pservice/parser/collect_stmt_scopes.go',
      'database/mysql/mservice/parser/collect_table_names.go', 'database/postgres/pservice/parser/collect_table_names.go',
      'database/mysql/mservice/parser/collect_table_schemas.go', 'database/postgres/pservice/parser/collect_table_schemas.go',
      'database/hasura/hservice/parser/collect_table_schemas.go', 'database/dservice/dparser/build_table_fields.go'],
     [('Enter', 'database/*/*service/parser/collect_stmt_scopes.go'), ('isSchemaSpecified', 'database/postgres/pservice/parser/collect_stmt_scopes.go'),
      ('CollectTableSchemas', 'database/*/*service/parser/collect_table_schemas.go')],
     'conditional constant propagation over the control-flow ways consistent with the construct being there, through helpers',
     '''Qualifiers of column names in MySQL (d.t.c) are ignored by the tool and are not part of the property. That a recorded error stops the
     command is P09's business; that the statement is exactly one SELECT is P04's.''')


prop('P09', 'No failure is swallowed: it ends the command with a logged error',
     '''When a database, Hasura, Jaeger, AWS, file, decoding or parsing operation of a command fails, the command stops,
     logs an error and exits with a nonzero status. Errors are never dropped, overwritten by a later success, or replaced by a partial result
     that is presented as complete; only failures of closing a resource after reading may be ignored.''',
     ['fault_sequences', 'inputs'], 'every call that can fail in the code of the five commands, and every path from its failure to the end of the process',
     '''Each failure needs its own injected fault; tests inject almost none, and there are over two hundred calls that can fail.''',
     ['cmd/root.go', 'cmd/util/log.go', 'infra/hasura/client.go', 'infra/aws/performance_insights.go', 'infra/jaeger/client.go',
      'database/mysql/mservice/parser/collect_stmt_scopes.go', 'database/postgres/pservice/parser/collect_stmt_scopes.go'] + CMDS,
     [('Execute exits 1', 'cmd/root.go'), ('error lists of collectors', 'database/*/*service/parser/*.go'), ('rows.Err', 'infra/*/db.go')],
     'error-flow analysis: every error result is followed along the paths on which it is not nil to a return, a recorded error list or the exit',
     '''Decides propagation of each error value of the program's own code. Whether a library reports its failures is trusted.''')

prop('P10', 'Nothing shown in a report can execute as script or markup',
     '''Queries, names, plans, traces and every other value that comes from the user, a database, Hasura, Jaeger or AWS enter the
     report file only through html/template's contextual escaping (or as JSON encoded by encoding/json). Only the client's own
     files embedded in the program are inserted as they are.''',
     ['inputs'], 'every value placed in a report of the five commands',
     '''An injection depends on one unlisted value; tests compare reports for harmless values.''',
     ['html/html_builder.go', 'html/build_option.go'], [('template', 'html/html_builder.go'), ('trusted script and style', 'html/html_builder.go')],
     'taint analysis of conversions to trusted template types, template texts and writes to the report file',
     '''Decides what the Go program writes. What the client's scripts do with the data in the browser is outside.''', ['the report file'])

prop('P11', 'The report is complete, at the given path only, and written last',
     '''With --output, a command that ends successfully has created (or replaced) exactly the file at that path, rendered the
     report into it and closed it without error. The file is touched only after all communication with databases and
     services is done, and the commands create, change or remove no other file.''',
     ['fault_sequences', 'inputs', 'configurations'], 'every successful or failing path of the five commands',
     '''Tests look at the file of a successful run; a failure at each single step before or during writing is not sampled.''',
     ['html/html_builder.go', 'cmd/app/dig/jaeger.go', 'cmd/db/dig/performance_insights.go'] + CMDS,
     [('CreateHtml', 'html/html_builder.go'), ('skip without --output', 'cmd/**/*.go')],
     'control-flow ordering (reachability and must-execute) of file effects against interactions, with error-flow',
     '''Decides order and completeness in the program. Power loss and concurrent writers of the same path are outside.''', ['the report file'])


prop('P12', 'The report carries every member the client reads, under its name',
     '''For every member declared in the client's IGrParam types (client/src/types/gr_param.d.ts, recursively), the data written
     to the report has a member of exactly that name and of a matching kind (text, number, truth value, list, record, object).
     Members the client does not declare optional are never omitted for being empty, and lists among them are never null.''',
     ['programs', 'inputs'], 'every member of every type reachable from IGrParam, for all five reports',
     '''The client is not part of the Go tests, and no test compares the two declarations; a renamed member silently shows an empty report.''',
     ['client/src/types/gr_param.d.ts', 'html/build_option.go', 'html/viewmodel/*.go'], [('JSON tags', 'html/viewmodel/*.go'), ('IGrParam', 'client/src/types/gr_param.d.ts')],
     'cross-language type comparison (TypeScript declarations against Go types and JSON tags), and nil-ness of lists in the SSA form',
     '''Decides names, kinds and nil lists. That the client's own code conforms to its declarations is the TypeScript compiler's business.''', ['the report file'])

prop('P13', 'The suggest report shows the given query, all suggestions and results',
     '''The report of a suggest command contains the given query unchanged (for Hasura: the GraphQL query, its variables and the SQL Hasura
     executes), every suggested index once, in order, with its table and all columns in order, and the command options (query, output path with
     "_examine" before its extension unless examined, JSON variables) that repeat the run. It contains the examination's result, with the
     times of every examined index, exactly when --with-examine was given.''',
     ['inputs', 'configurations'], 'every query, set of suggestions, examination result and flag values of the three suggest commands',
     '''Tests do not look into the data of the report at all.''',
     ['html/build_option.go', 'html/viewmodel/vm_examination_command_option.go', 'database/dmodel/examination_result.go',
      'database/dmodel/examination_index_result.go', 'database/dmodel/index_target.go', 'database/dmodel/index_column.go'] + CMDS,
     [('ToViewModel', 'database/dmodel/*.go'), ('build options', 'html/build_option.go'), ('createHTML', 'cmd/db/suggest/*.go')],
     'value-flow tracing of each member of the report to its source, with path facts for the flags',
     '''Decides where each value comes from. The execution plan's nodes are P14's business.''', ['the report file'])

prop('P15', 'Databases are opened with exactly the documented environment settings',
     '''The suggest commands for MySQL and PostgreSQL connect with the user, password, address (host, port), protocol and database name found in
     the documented DB_* environment variables, whatever characters the values contain, and with DB_PARAM_TEXT after them. An optional
     setting is left to its default only when the variable is empty; without DB_USERNAME or DB_DATABASE no connection is opened.''',
     ['configurations', 'inputs'], 'every value of every DB_* variable, set or not',
     '''Tests build one configuration per database; quoting and dropping of values depends on their characters and on which ones are set.''',
     ['infra/mysql/config.go', 'infra/postgres/config.go', 'infra/mysql/db.go', 'infra/postgres/db.go', 'lib/env.go', 'README.md'],
     [('ToDSN', 'infra/mysql/config.go'), ('GetKVConnectionString', 'infra/postgres/config.go'), ('GetEnv', 'lib/env.go')],
     'symbolic string templates of the connection string, lexed in the driver\'s grammar, with provenance of each value',
     '''Decides the text handed to the driver. The drivers' own parsing is trusted; Hasura's and Jaeger's settings are P24's and P18's business.''')

prop('P17', 'Tables, columns and indexes are read from the catalog completely and in order',
     '''The catalog queries of a suggest command ask about the configured schema (DB_DATABASE; DB_SEARCH_PATH or public; public for Hasura) and every
     table of the query, and skip no column or index. Every row becomes the column (and primary key column) of its own table, in table order, or a
     column of its own index, in index order: columns of two indexes are never merged, and those of one never split.''',
     ['inputs', 'histories'], 'every catalog content and every set of tables',
     '''Tests feed a couple of rows; merging, ordering and filtering errors show only with particular tables, index names and row orders.''',
     ['infra/mysql/column_info.go', 'infra/mysql/index_info.go', 'infra/postgres/column_info.go', 'infra/postgres/index_info.go', 'infra/hasura/column_info.go', 'infra/hasura/index_info.go',
      'infra/mysql/db.go', 'infra/postgres/db.go', 'infra/hasura/client.go', 'database/dservice/dparser/table_schema.go'],
     [('toIndexInfo', 'infra/mysql/index_info.go'), ('columnFetchQuery', 'infra/postgres/column_info.go'), ('CreateTableSchemas', 'database/dservice/dparser/table_schema.go')],
     'parsed catalog SQL with the provenance of bound values; row-to-field dataflow; path enumeration of the grouping loop',
     '''Decides which rows are asked for and what becomes of each. What the servers answer is trusted; dropped PostgreSQL columns are listed too (see DESIGN.md).''')

prop('P24', 'Every request to Hasura is addressed, authorised and judged correctly',
     '''Each request goes by POST to HASURA_URL with the path of the API it is meant for (/v1/graphql, /v1/graphql/explain, /v2/query) after the
     URL's own path, however many requests went before, and carries HASURA_ADMIN_SECRET; none is sent when either variable is missing. An answer
     whose status is not success, or a GraphQL answer with errors, is a failure.''',
     ['configurations', 'inputs', 'fault_sequences'], 'every HASURA_URL and secret, every sequence of requests and every answer',
     '''No test runs the Hasura client against several requests, base paths or failing answers.''',
     ['infra/hasura/client.go', 'infra/hasura/config.go', 'lib/env.go', 'cmd/db/suggest/hasura'],
     [('post', 'infra/hasura/client.go'), ('resolveURL', 'infra/hasura/client.go'), ('NewConfigFromEnv', 'infra/hasura/config.go')],
     'context-sensitive dataflow of each request\'s method, address and headers; facts known at successful returns',
     '''Decides what is sent and which answers count as success. HTTP itself (redirects, TLS) is net/http's business.''')

prop('P14', 'The reported plan is the server\'s plan: every line, its nesting and its numbers',
     '''Every line of the plan EXPLAIN ANALYZE answers, up to its summary, appears exactly once and in order in the report's plan, each node under the
     nearest preceding one indented less, with exactly the numbers its line states (cost, rows, width, time, loops) in the members of those names
     and none the line does not state. PostgreSQL's summary is the text that follows the plan.''',
     ['inputs'], 'every plan text the server can answer',
     '''Tests parse a few recorded plans; misplacing, losing or mixing up numbers depends on indentation, line kinds and optional parts.''',
     ['database/mysql/mservice/explainer.go', 'database/mysql/mmodel', 'database/postgres/pservice/explain_analyze_tree_builder.go', 'database/postgres/pmodel', 'lib/stack.go', 'html/viewmodel'],
     [('buildExplainNode', 'database/mysql/mservice/explainer.go'), ('Build', 'database/postgres/pservice/explain_analyze_tree_builder.go'), ('ParseExplainAnalyzeResultLineNode', 'database/postgres/pmodel/explain_analyze_result_node.go')],
     'regular-expression forms with provenance of each number; typestate of the node stack; per-turn conservation of lines',
     '''Decides nesting, conservation and the numbers. Whether a PostgreSQL line continues the previous node (the line-kind patterns) and the derived title are not specified.''')

prop('P19', 'Performance Insights: every instance, page and data point lands where it belongs',
     '''`db dig performance-insights` lists every MySQL instance of RDS (all pages) and asks, for each, for db.load.avg grouped by SQL and by tokenized SQL
     in consecutive windows covering the 7 days from --start-from (RFC3339; default 7 days ago), all pages. Every non-zero data point is counted exactly once
     (sum and maximum) under its own UTC hour, instance and SQL, in the list of its own grouping. Every hour of the period is listed, in order, with or without load.''',
     ['configurations', 'inputs', 'histories'], 'every set of instances, every start and every sequence of answered pages and data points',
     '''Tests mock one page with a few points; lost pages, windows, instances or points, or points filed under a neighbour, show only with particular answers and times.''',
     ['cmd/db/dig/performance_insights.go', 'infra/aws', 'lib/time.go', 'html/build_option.go', 'html/viewmodel/vm_db_load.go'],
     [('dig', 'cmd/db/dig/performance_insights.go'), ('getHalfDayMetrics', 'infra/aws/performance_insights.go'), ('ConvertPiSQLLoadAvgsToVms', 'infra/aws/pi_sql_load_avg.go'), ('GetDBs', 'infra/aws/rds.go')],
     'provenance paths from answer members to report members; affine series of times; conservation of elements; path enumeration of the filing loop',
     '''Decides what is asked, that no answered point is dropped or misfiled, and how sum and maximum are formed. What AWS answers is trusted (its limit of 10 SQLs per group is kept).''')

prop('P18', 'Jaeger is asked for exactly the traces the user wants; every answer is kept',
     '''`app dig jaeger` asks the server at JAEGER_GRPC_ADDRESS for traces of --service-name, --count of them per request, lasting at least
     --min-duration-millisecond, in consecutive windows without gap or overlap from --start-from (RFC3339; default 24 hours ago) until 24 hours later
     or now. Every trace of every answer, to the end of each stream, is considered for the report; without JAEGER_GRPC_ADDRESS or JAEGER_UI_URL nothing is asked.''',
     ['configurations', 'inputs', 'histories'], 'every start, clock, flag value and stream of answers',
     '''Tests answer with a trace or two; gaps between windows, truncated durations and traces dropped from later windows or chunks show only with particular times and answers.''',
     ['cmd/app/dig/jaeger.go', 'otel/jaeger/trace_fetcher.go', 'infra/jaeger/client.go', 'lib/time.go', 'otel/jaeger/trace_picker.go'],
     [('FetchCompactedTraces', 'otel/jaeger/trace_fetcher.go'), ('FindTraces', 'infra/jaeger/client.go'), ('GenerateTimeRanges', 'lib/time.go')],
     'affine dataflow of times over loop variables; provenance of request members; conservation of collected elements',
     '''Decides what is asked and that nothing received is dropped. What Jaeger answers and clock changes during a run are out of reach.''')

prop('P20', 'The same input gives the same report',
     '''Running a command twice on the same query, schema, execution times or traces gives the same report and the same statements and requests in the same order: the suggested
     indexes and their order, the order in which they are examined and listed, the trace trees with the order of spans and the service rated as most time-consuming never depend on
     the iteration order of a Go map. A sort on which this relies compares everything in which two entries can differ.''',
     ['schedules', 'inputs'], 'every iteration order the runtime may choose for every map of the program',
     '''Tests run each case once and compare sorted or single-element results; a dependence on map order fails one run in many and only with several tables, columns, services or spans.''',
     ['database/dservice/dparser/index_target_builder.go', 'database/dservice/dparser/index_target_table.go', 'database/dservice/dparser/build_table_fields.go', 'database/dservice/examiner.go', 'database/dservice/existing_index_remover.go', 'lib/set.go', 'otel/jaeger/v1_converter.go', 'otel/omodel/compact_info_collect_visitor.go'],
     [('Build', 'database/dservice/dparser/index_target_builder.go'), ('SortIndexTargetTable', 'database/dservice/dparser/index_target_table.go'), ('Values', 'lib/set.go'), ('GetMostTimeConsumedService', 'otel/omodel/compact_info_collect_visitor.go')],
     'interprocedural dataflow of order taint from map iteration, killed by sorts with a covering comparator',
     '''Log lines, error texts and the order of names inside an IN list are outside. A comparator is taken to be a proper order when it reads every member of the entries (nested lists in a loop).''')

prop('P23', 'Trace trees and reported spans are faithful to the received spans',
     '''Every span received from Jaeger becomes exactly one node: a root when it has no parent or its parent was not received, otherwise a child of its own
     parent, siblings in order of start time. A node carries its own name, ids, times and attributes and the service.name of its own resource; the report shows each
     kept span's name, hex ids, times in milliseconds, service and children. Durations never wrap below zero.''',
     ['inputs', 'histories'], 'every set of received spans: any order, grouping, missing parents and odd times',
     '''Tests convert a handful of well-formed spans; misplaced orphans, lost groups and swapped members show only with particular shapes.''',
     ['otel/jaeger/v1_converter.go', 'otel/omodel/span.go', 'otel/omodel/trace_tree.go', 'otel/omodel/any_value.go', 'html/viewmodel/vm_otel_trace_span.go'],
     [('ToTraceTrees', 'otel/jaeger/v1_converter.go'), ('ToViewModel', 'otel/omodel/span.go'), ('Duration', 'otel/omodel/span.go')],
     'provenance of node members; conservation of elements; path enumeration of the linking loop; guard facts at unsigned subtractions',
     '''Decides construction, linking, order and copying. Spans with duplicate ids or cyclic parents, which Jaeger does not answer, are out of scope.''')

prop('P25', 'The Jaeger report picks, compacts and rates the right traces',
     '''The report lists as slow the 100 traces with the longest duration, longest first, and as same-service exactly those in which one service has more spans than
     --same-service-threshold. A compacted trace keeps exactly the root, the spans whose service differs from their parent's and the leaf spans calling a database (labelled
     "system (service)"), each under its nearest kept ancestor. Each trace shows the highest count and the most time-consuming service of its own spans, next to the thresholds and UI URL given.''',
     ['inputs', 'configurations'], 'every forest of spans and every threshold',
     '''Tests compact one small trace and pick from two or three; wrong nesting, ties with the threshold and mixed-up lists need particular shapes.''',
     ['otel/jaeger/trace_picker.go', 'otel/omodel/trace_compacter.go', 'otel/omodel/trace_tree.go', 'otel/omodel/same_resource_count_visitor.go', 'otel/omodel/compact_info_collect_visitor.go', 'lib/heap.go', 'cmd/app/dig/jaeger.go', 'html/build_option.go'],
     [('PickSlowTraces', 'otel/jaeger/trace_picker.go'), ('PickSameServiceAccessTraces', 'otel/jaeger/trace_picker.go'), ('Enter', 'otel/omodel/trace_compacter.go'), ('Leave', 'otel/omodel/trace_compacter.go'), ('Push', 'lib/heap.go')],
     'path enumeration of the visitors against a truth table; orientation and bounds of the heap; provenance of report members',
     '''Decides what is kept, where, and what is listed. container/heap is trusted; the arithmetic of the time a span itself consumes is not specified.''')

prop('P16', 'Passwords and the admin secret are never shown',
     '''DB_PASSWORD and HASURA_ADMIN_SECRET are used only to connect to the database and in the x-hasura-admin-secret header of requests. Neither they, nor a connection string,
     configuration or header holding them, are ever written to the log or terminal, into an error, the report or another file, a statement, or the address or body of a request,
     whatever fails and at every level of logging.''',
     ['fault_sequences', 'configurations'], 'every failure of every command and every value of the environment',
     '''Tests run with no password or a dummy one and look at no log; a leak shows only on the failure or debug level that prints it.''',
     ['infra/mysql/config.go', 'infra/mysql/db.go', 'infra/postgres/config.go', 'infra/postgres/db.go', 'infra/hasura/config.go', 'infra/hasura/client.go', 'lib/http_transport.go', 'cmd/util/log.go'],
     [('ToDSN', 'infra/mysql/config.go'), ('GetKVConnectionString', 'infra/postgres/config.go'), ('post', 'infra/hasura/client.go'), ('RoundTrip', 'lib/http_transport.go')],
     'context-sensitive taint analysis from the environment to all places where values become visible, through objects, headers and buffers',
     '''Decides explicit flows. Errors made by the drivers and net/http themselves are trusted not to quote secrets; a secret typed into HASURA_URL or DB_PARAM_TEXT is not one.''')

prop('P22', 'Whatever a command opens is closed on every way out, and not before',
     '''Every database handle, connection to Jaeger, body of an HTTP response and file that a command opens is closed again on every way from there to the end of the command, failures
     included, and for each repeated request anew. None is used, or handed to a caller for use, after it was closed.''',
     ['fault_sequences', 'histories'], 'every failure after each acquisition',
     '''Tests replace the databases by mocks opened elsewhere and never look whether anything is left open, least of all after failures.''',
     ['infra/mysql/db.go', 'infra/postgres/db.go', 'infra/jaeger/client.go', 'infra/hasura/client.go', 'html/html_builder.go', 'cmd/db/suggest/mysql.go', 'cmd/db/suggest/postgres.go', 'cmd/app/dig/jaeger.go'],
     [('OpenMySQLDB', 'infra/mysql/db.go'), ('OpenPostgresDB', 'infra/postgres/db.go'), ('Open', 'infra/jaeger/client.go'), ('post', 'infra/hasura/client.go'), ('CreateHtml', 'html/html_builder.go')],
     'interprocedural path-sensitive typestate (acquired, handed on, closed) over SSA control flow',
     '''Decides all control-flow exits. A killed process is outside; a resource kept in an object whose life is not followed is counted, not judged.''')

prop('P26', "Suggested indexes are made of their own table's columns the query refers to",
     '''A candidate index names one table of the query and columns of that very table, each once, that the query refers to; as they are, table and columns become the suggestion. A column is found by the
     name or alias in front of it, or else in the innermost scope having it, under its own name; a subquery sees the scopes around it, one in FROM the tables beside it only if it is LATERAL.
     Every column found is taken into account, once per table, as a condition if it is one anywhere. Left out are only candidates made of primary key columns alone and those with value-only
     columns which lack columns of the table or have these not last.''',
     ['inputs'], 'every query, nesting of subqueries and catalog',
     '''Tests build candidates for a few small scopes; which table a name belongs to depends on the nesting, aliases and columns of all scopes, and what is recorded on the order of references.''',
     ['database/dservice/dparser/index_target_builder.go', 'database/dservice/dparser/build_table_fields.go', 'database/dservice/dparser/index_target_table.go'],
     [('Build', 'database/dservice/dparser/index_target_builder.go'), ('buildTableFields', 'database/dservice/dparser/build_table_fields.go'), ('ToIndexTarget', 'database/dservice/dparser/index_target_table.go')],
     'provenance of names through scopes; path enumeration of every pass, lookup and recording',
     '''Decides what each pass leaves out, where names are looked up and in which order, and what is recorded. That all permutations come out of the recursion is not decided beyond each column leaving and re-entering the set.''')

prop('P27', 'What is explained, searched for indexes and measured is exactly the given query',
     '''The suggest commands have the server explain, with full measurement, the text given with -q unaltered and parse that very text to find indexes, which happens only for exactly one
     statement. With Hasura the explain request and the measured ones carry the text of -q and all variables of --json-variables as given, no others and for no other user; indexes are searched
     for the SQL in the answer, unaltered, and a query answered with several SQLs (or none) is refused.''',
     ['inputs'], 'every query, set of variables and answer',
     '''Tests run one short query per command, without quoted names, comments or variables given as null; any normalisation on the way leaves such a query as it is.''',
     ['cmd/db/suggest/mysql.go', 'cmd/db/suggest/postgres.go', 'cmd/db/suggest/hasura/postgres.go', 'infra/mysql/db.go', 'infra/postgres/db.go', 'infra/hasura/client.go', 'database/mysql/mservice/parse.go', 'database/postgres/pservice/parse.go', 'database/mysql/mservice/index_suggester.go', 'database/postgres/pservice/index_suggester.go', 'database/hasura/hservice/index_suggester.go'],
     [('ExplainWithAnalyze', 'infra/mysql/db.go'), ('ExplainWithAnalyze', 'infra/postgres/db.go'), ('Parse', 'database/mysql/mservice/parse.go'), ('Parse', 'database/postgres/pservice/parse.go'), ('suggest', 'cmd/db/suggest/hasura/postgres.go')],
     'context-sensitive provenance of statement texts, request bodies and parser inputs; facts on call paths',
     '''Decides where each text and object comes from and which counts of statements and answers are known when it is used. What the libraries parse out of the text is theirs.''')

na('P90', 'Times and loads shown are numerically exact',
     '''The time a span itself consumes, the sums and maxima of loads and the percentage of a reduction are the exact mathematical values, without loss by rounding or overflow.''',
     ['inputs'], 'every set of spans, data points and times',
     '''Numerical agreement is a matter of the values at run time.''',
     ['otel/omodel/span.go', 'infra/aws/pi_sql_load_avg.go', 'database/dservice/examiner.go'],
     [('CalcConsumedTime', 'otel/omodel/span.go')],
     '''Whether floating point sums and unions of intervals come out exact is decided by run-time values no sound static argument in reach bounds. What feeds these numbers (which data points, which spans, which clock readings) is decided by P05, P19, P23 and P25.''')

na('P91', 'The client renders what the report carries',
     '''The Svelte client shows every member of the embedded data at its place: plans, suggestions, examination results, loads and traces.''',
     ['inputs'], 'every report',
     '''The client has no tests that render reports.''',
     ['client/src/App.svelte', 'client/src/types/gr_param.d.ts'],
     [('IGrParam', 'client/src/types/gr_param.d.ts')],
     '''No Svelte compiler or parser is installed here and none can be fetched, so the components cannot be type checked or analysed. The contract between the report and the client (names, kinds, presence of members) is decided by P12.''')
