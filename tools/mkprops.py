#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

L = "lib/src/"
p("C01", "No program text can crash or hang the tool",
  "For every source text, parsing and then evaluating it (no network involved) ends in finite time with either a value or an error message. It never panics, aborts, overflows the stack or loops forever, whatever characters, token order, nesting depth, chain length or operand values the text contains and however deep the values grow that its statements build on one another, as long as they fit into memory.",
  ["inputs", "programs"], "every character string, every token sequence, every nesting depth and every operand value",
  "The unit tests parse a few dozen well-formed snippets; crashes and hangs live in ill-formed token orders (an operator in an unusual position), boundary operands and deep nesting, which the tests never produce.",
  [L+"lexer.rs", L+"parser.rs", L+"evaluator.rs", L+"value.rs", L+"native.rs", L+"syntax.rs"],
  [("token loop always advances", L+"parser.rs parse/parse_expr/parse_expr_list/parse_block_expr"), ("operators return Result", L+"value.rs"), ("index bounds test", L+"evaluator.rs eval_index_expr")],
  observe=["Parser::parse + eval_block return", "basjoofan eval/repl"])
p("C02", "Operators group by the documented precedence and associativity",
  "In every expression the operators bind in this order, tightest first: index and field access, calls, unary ! and -, then * / %, then + -, then << >>, then < > <= >=, then == !=, then &, ^, |, &&, ||; binary operators of equal rank group from the left. Parentheses override the grouping and are otherwise without effect: the expression evaluates to exactly what its fully parenthesised form evaluates to.",
  ["inputs", "programs"], "every sequence of unary, binary and postfix operators over every operand",
  "test_parse_operator_precedence lists some 30 expressions; there are 18*18 ordered operator pairs and thousands of triples with unary and postfix operators mixed in.",
  [L+"token.rs", L+"parser.rs", L+"evaluator.rs", L+"lexer.rs"],
  [("precedence table", L+"token.rs Token::precedence"), ("precedence climbing", L+"parser.rs parse_expr, parse_unary_expr, parse_binary_expr")],
  observe=["value of the evaluated expression"])
p("C03", "Every operator computes its defined result on every pair of operands",
  "For every operator and every pair of operand values (null, integers, floats, booleans, strings, arrays, maps) the result is the defined one: exact 64-bit integer and IEEE double arithmetic with integer operands widened to float when mixed, bit operations and shifts by 0..63 on integers, string concatenation, numeric and text ordering, structural equality, and !, && and || treating only false and null as false. Numbers compare by numeric value, so exactly one of a<b, a==b, a>b holds for any two numbers other than NaN, and != is always the negation of ==. An undefined case (mismatched types, integer overflow, zero divisor, shift out of range) is an error, never a wrong value; ordering values that have no order gives false.",
  ["inputs"], "every operator and every pair of operand values, including the extremes of the integer and float ranges",
  "The evaluator tests use small friendly operands, about two per operator, and no mixed-type or extreme operand.",
  [L+"value.rs", L+"evaluator.rs"],
  [("arithmetic impls", L+"value.rs Add..Shr"), ("PartialOrd/PartialEq", L+"value.rs"), ("truthiness", L+"evaluator.rs eval_unary_expr, eval_binary_expr, eval_if_expr")],
  observe=["value or error of the evaluated expression"])
p("C04", "Programs execute as sequential code: bindings, order, branches, errors",
  "A program runs its expressions in source order, each operand, argument, element and key/value evaluated exactly once and left to right; a let binds its name for everything that follows, replacing any earlier binding, and its value is the bound value. Only the selected branch of an if and only the needed operand of && and || are evaluated, so what is skipped has no effect; the value of a block is its last expression's, or null when empty. The first error stops the program at that point: everything before it has taken effect and nothing after it has.",
  ["programs", "histories"], "every program built from let, if/else, blocks, short-circuit operators, calls and failing expressions, from every binding state",
  "Each evaluator test is one short program from an empty context; the order and exactly-once guarantees need programs whose effects are interleaved with branches and errors, from non-initial states.",
  [L+"evaluator.rs", L+"context.rs", L+"parser.rs"],
  [("environment", L+"context.rs Context.inner"), ("eval_block/eval_list order", L+"evaluator.rs"), ("short circuit", L+"evaluator.rs eval_binary_expr"), ("? propagation", L+"evaluator.rs")],
  state=[("bindings", "name to value map of the running program", L+"context.rs Context")],
  observe=["printed output order", "final value", "bindings after the run"])
p("C05", "Layout never changes meaning",
  "Whitespace between tokens (blank, tab, carriage return, line feed, any amount, including none where the neighbouring tokens stay distinct) and an optional single semicolon after a complete expression never change what a program parses to or evaluates to. Tokens are the longest match: multi-character operators, identifiers, keywords and numbers are never split or merged with a neighbour, and the text of string and template literals is taken verbatim, including all whitespace and every Unicode character.",
  ["inputs", "programs"], "every token sequence under every choice of separator at every gap; every literal content",
  "test_segment tokenises one hand-written text with one layout.",
  [L+"lexer.rs", L+"parser.rs"],
  [("longest match with one-character lookahead", L+"lexer.rs segment"), ("optional semicolon", L+"parser.rs parse, parse_let_expr, parse_block_expr")],
  observe=["value of the program under each layout"])
p("C06", "Built-in functions: format, print, println, length, append",
  "format replaces the placeholders {name} of its first argument by the texts of the remaining arguments in order, leaving every other character (also in the inserted texts) untouched, and is an error when the number of arguments differs from the number of placeholders or the first argument is not a string; print and println write exactly that text (println plus one line feed) and yield null. length gives the number of bytes of a string, elements of an array or entries of a map and is an error otherwise; append returns the array extended by the arguments in order and never changes the array it was given. The text of a value is a function of the value alone, the same every time it is produced.",
  ["inputs"], "every template string over placeholder fragments and every argument list of every value kind",
  "test_format and test_append cover three calls each; adjacent, repeated, nested, malformed placeholders, inserted texts that look like placeholders, and wrong argument kinds are not exercised, and nothing checks printed output of collections.",
  [L+"native.rs", L+"evaluator.rs", L+"value.rs"],
  [("placeholder regex and right-to-left replacement", L+"native.rs format"), ("dispatch", L+"evaluator.rs eval_call_expr"), ("Display", L+"value.rs")],
  observe=["return value", "bytes written to standard output"])
p("C07", "Collections behave as values",
  "An array literal holds its elements in order and a map literal holds, for each key's text, the last value given; indexing an array by an integer yields that element, or null when it is negative or past the end; indexing or field access on a map yields the entry for the key's text, or null when absent. Indexing anything else is an error. Collections are values: binding, indexing, appending or passing one never changes any other binding or the collection itself.",
  ["inputs", "histories"], "every small array and map, every index and key, every sequence of read and update operations over aliased bindings",
  "The tests read a handful of literals; aliasing between bindings, duplicate or differently typed keys and boundary indexes are not covered.",
  [L+"evaluator.rs", L+"native.rs", L+"context.rs"],
  [("eval_index_expr/eval_field_expr on copies", L+"evaluator.rs"), ("map keys by text", L+"evaluator.rs eval_map_literal")],
  observe=["value of every binding after every step"])
p("C08", "A REPL session is the sequential history of its lines",
  "Each line entered in the interactive session is evaluated in exactly the state left by all previous lines: variables and request definitions persist, a redefinition replaces the earlier one, a line that fails to parse changes nothing, and a line that fails while running keeps the effects it had before failing. Every non-blank line prints its own output followed by its value or error, in order. The session ends on the line 'exit' or at the end of its input, and on nothing else.",
  ["histories", "inputs"], "every sequence of lines, and every way of cutting the input stream into reads, including end of input at any point",
  "test_command_repl runs one line and always ends with exit; multi-line histories, failing lines and end of input are untested.",
  ["cmd/src/command.rs", "cmd/src/main.rs", L+"context.rs"],
  [("line loop", "cmd/src/command.rs repl"), ("context handed from line to line", "cmd/src/command.rs eval")],
  observe=["standard output of the basjoofan binary", "process termination"])
p("C09", "Source directories load completely, in path order, file by file",
  "Running tests on a directory uses every file below it, at any depth, whose name is a stem followed by the extension .fan, and no other file; running on a file uses that file. The files take effect in sorted path order regardless of the order in which the file system lists them, and every file's tokens stay its own: the result is the same as if each file ended in a line break.",
  ["configurations", "inputs"], "every directory tree, listing order and file content boundary",
  "The command test uses a directory with a single file.",
  ["cmd/src/command.rs"],
  [("recursive sorted read", "cmd/src/command.rs read")],
  observe=["which definitions and top-level effects the run shows, and in which order"])
p("C10", "Request templates expand to the current variable values and nothing else",
  "When a request is called, every placeholder {name} of its template (optional blanks inside the braces) is replaced by the text of that variable at the time of the call, or null if it is not defined, and every other character of the template is used verbatim. The expansion is a single pass: braces inside inserted values are not expanded again, neighbouring or repeated placeholders do not affect one another, and the stored template is unchanged, so the next call expands it afresh with the values of that moment.",
  ["inputs", "histories"], "every template over placeholder and literal fragments, every binding of the variables, every sequence of calls and rebindings",
  "The two request tests need the public internet and use one template with one variable.",
  [L+"evaluator.rs", L+"context.rs"],
  [("placeholder regex, right-to-left replacement on a copy", L+"evaluator.rs eval_call_expr")],
  observe=["bytes the server receives"])
p("C11", "The request on the wire is the request in the message",
  "For every message the connected server receives exactly one well-formed HTTP request: request line with the message's method, the target from its URL and its version (GET and HTTP/1.1 when not recognised), every header line once, in order, with name and value trimmed of surrounding blanks and otherwise unchanged, an empty line, and then the body lines as written, separated by line feeds. Nothing is lost, duplicated or reordered however the operating system splits or interrupts the writes, and the stored request reported to the user shows the same method, headers and body.",
  ["inputs", "fault_sequences"], "every message over the method, header and body alphabets; every pattern of short and interrupted writes",
  "No test observes the bytes sent: the client tests need the public internet and only look at the response status.",
  [L+"http/request.rs", L+"http/client.rs", L+"http/content.rs", L+"http/header.rs", L+"http/stream.rs"],
  [("message parse", L+"http/request.rs Request::from"), ("buffered write_all", L+"http/request.rs Request::write")],
  observe=["bytes passed to the socket", "recorded request"])
p("C12", "Requests go to the host, port and target of their URL",
  "For a URL scheme://host[:port][/target] the connection is opened to exactly that host and port (80 for http, 443 for https when no port is given) and the request line carries the whole target from the first slash to the end of the URL, or / when there is none, whatever characters (colons, slashes, ://, ?, #, %) the target contains. An http URL is always spoken in plain text and an https URL only over TLS. The URL reported in the record identifies the same scheme, host, port and target.",
  ["inputs"], "every URL over an alphabet of schemes, hosts, ports and target fragments",
  "The eight URL tests check fixed strings of one shape each and none with separators inside the target.",
  [L+"http/url.rs", L+"http/stream.rs", L+"http/mod.rs"],
  [("URL split", L+"http/url.rs"), ("default port", L+"http/url.rs"), ("scheme selects transport", L+"http/stream.rs Stream::connect")],
  observe=["resolver and connect calls", "request line", "recorded URL"])
p("C13", "Form and multipart bodies decode to exactly the given fields",
  "A body of name: value lines under Content-Type application/x-www-form-urlencoded is sent as a form encoding that decodes to exactly those trimmed names and values in order, for every Unicode text. Under multipart/form-data it is sent as a multipart body whose delimiter is the boundary parameter announced in the sent Content-Type header and whose parts are exactly those fields, the texts in order and the files in order, values starting with @ being replaced by the named file's content. Other content types are sent verbatim.",
  ["inputs", "fault_sequences"], "every list of fields over an alphabet of names and values, including empty, reserved and non-ASCII characters and file contents of any size, under every short-write pattern",
  "The form and multipart tests need the public internet, use one field and do not look at the body.",
  [L+"http/request.rs", L+"http/content.rs"],
  [("form serializer", L+"http/request.rs"), ("multipart builder", L+"http/request.rs"), ("content copy", L+"http/content.rs")],
  observe=["bytes passed to the socket"])
p("C14", "A response is what the server sent, however the network delivers it",
  "The version, status, reason phrase, headers (names and values trimmed, repeated headers kept in order) and body that a test sees are a function of the bytes the server sent before closing, and of nothing else: every way of cutting those bytes into reads, and every interruption or delay between them, gives the same response. The body is everything after the first empty line, byte for byte.",
  ["inputs", "fault_sequences"], "every response over the status, header and body alphabets; every segmentation of its bytes and every interrupted read",
  "test_from_message_json decodes one response delivered in one piece from memory.",
  [L+"http/response.rs", L+"http/stream.rs", L+"http/client.rs"],
  [("buffered line reads", L+"http/response.rs Response::from"), ("header map", L+"http/response.rs to_map")],
  observe=["fields of the value returned by the request call", "record"])
p("C15", "Network failures are reported, never fatal and never mistaken for a response",
  "Whatever happens to a call on the network (name not found, refused, reset or failing at any byte of the request or response, connection closed at any byte, non-HTTP or non-UTF-8 bytes) the call returns to the script, the run goes on with the next expression, exactly one record of the call exists, and a request that was begun to be sent is not sent again: a call opens at most one connection to a host with one address. When the exchange failed with an error the record carries a non-empty error text and an empty response with status 0; when it completed the error text is empty.",
  ["fault_sequences", "inputs"], "every single failure at every network operation and every byte position of the exchange, and every truncation of the response",
  "No test injects a network failure.",
  [L+"http/client.rs", L+"http/stream.rs", L+"http/error.rs", L+"http/response.rs", L+"evaluator.rs"],
  [("error paths of Client::send", L+"http/client.rs"), ("record pushed on every path", L+"evaluator.rs eval_call_expr")],
  observe=["value of the call", "record", "continuation of the script"])
p("C16", "json is the decoded response body",
  "When the response body is a JSON document whose strings contain no backslash, the response's json field is that document: the same objects, arrays, strings, booleans, nulls, and numbers (integers within 64 bits stay integers; fractions become floats; negative numbers keep their sign). Whatever the body is, decoding it never fails the call and never executes anything in it.",
  ["inputs"], "every JSON document up to a depth and width bound over boundary scalars; every short non-JSON body",
  "One test decodes one object with one string member.",
  [L+"http/response.rs", L+"syntax.rs", L+"parser.rs", L+"lexer.rs"],
  [("body parsed as a literal", L+"http/response.rs to_map"), ("literal evaluation without calls", L+"syntax.rs Expr::eval")],
  observe=["json field of the value returned by the request call"])
p("C17", "A connection is made if and only if some address of the host accepts",
  "When a host name resolves to several addresses, the call connects through an address that accepts, tries addresses with IPv6 and IPv4 alternating (IPv6 first) in resolver order, starts the next attempt when the previous one fails or after a short fixed delay without waiting for it, and reports an error only after every attempt has failed. This holds for every order and timing in which attempts succeed, fail or never finish; the call neither deadlocks nor gives up while an attempt could still succeed, and sends its request on exactly one connection.",
  ["schedules", "fault_sequences", "configurations"], "every address list up to a bound, every outcome and completion time of each attempt, every thread interleaving up to a preemption bound",
  "Only the pure alternation helper is unit-tested; the racing threads, timeouts and channel are never run by a test.",
  [L+"http/stream.rs"],
  [("attempt race over a channel with timeout", L+"http/stream.rs connect_happy"), ("alternation", L+"http/stream.rs rotate")],
  observe=["connect calls and their times", "which connection carries the request", "record"])
p("C18", "https exchanges data only with an authenticated server, and only encrypted",
  "For an https URL no byte of the request is sent unless the server has proved, in a TLS 1.2 or 1.3 handshake, possession of a certificate for that host name issued by a trusted authority; otherwise the call ends with an error and an empty response. When the handshake succeeds the request and response pass only inside the encrypted channel and arrive unchanged, however the network splits the stream and whether or not the server closes the channel cleanly.",
  ["configurations", "fault_sequences"], "every combination of certificate defect, protocol version, server closing behaviour and stream segmentation up to a bound",
  "All TLS tests need the public internet and only the successful case; a certificate that must be rejected is never presented.",
  [L+"http/stream.rs", L+"http/client.rs"],
  [("platform verifier config", L+"http/stream.rs connect_tls"), ("read/write through rustls", L+"http/stream.rs Read/Write impls")],
  observe=["bytes on the socket", "plain text seen by the server", "record"])
p("C19", "Reported times partition the exchange",
  "For every successful call the reported total equals resolve + connect + write + delay + read exactly, each part is the time actually spent in that phase and none is negative; start and end are the wall-clock times of the call's begin and end. No behaviour of the clocks allowed by the platform (no progress between readings, large jumps, the wall clock set back) makes the call fail.",
  ["schedules", "fault_sequences"], "every assignment of durations (including zero and very large) to the phases, every clock reading sequence",
  "The identity is asserted only in tests that need the public internet, for whatever durations occur there.",
  [L+"http/client.rs", L+"http/time.rs", L+"http/stream.rs"],
  [("interval arithmetic", L+"http/client.rs send")],
  observe=["record file time fields", "times of the record"])
p("C20", "The verdict of a request is the conjunction of all its assertions",
  "Every expression in a request's assertion list is evaluated, in order, against that call's response and reported with its text, the operand values that were compared and its result; a comparison is judged by the language's own comparison, any other expression by whether its value counts as true, and an operand that cannot be evaluated counts as null. The call is reported as PASS when every assertion held and as FAIL when at least one did not. A failed assertion never stops the script.",
  ["inputs", "programs"], "every list of assertions over the comparison operators, logical connectives, literals and response fields, against every response in the alphabet",
  "The only test with an assertion needs the public internet and asserts status == 200.",
  [L+"evaluator.rs", L+"context.rs"],
  [("assert evaluation", L+"evaluator.rs eval_call_expr"), ("verdict", L+"context.rs Display for Record")],
  observe=["printed report", "asserts of the record"])
p("C21", "Every request that is called is reported exactly once, in call order",
  "In every run, each call of a request made by a test yields exactly one report: one block on standard output and, when recording, one record, with the call's own name, request, response, assertions and error, in the order the calls were made within the test. This includes calls made before the test body fails with an error; no report is lost, repeated or attributed to another call, test, thread or iteration.",
  ["programs", "histories", "schedules"], "every test body over calls, repeated calls, calls in arguments, branches and failing expressions; every interleaving of the threads running them up to a preemption bound",
  "The command test makes one call in one thread and needs the public internet.",
  [L+"evaluator.rs", L+"context.rs", "cmd/src/command.rs"],
  [("record push and take", L+"context.rs push/records"), ("emit after every iteration", "cmd/src/command.rs test")],
  state=[("records", "calls made since the last emission", L+"context.rs Context.records")],
  observe=["standard output", "record files"])
p("C22", "A named run performs exactly the requested iterations, shared by its threads",
  "Running a named test with a number and a thread count, and no duration, performs, unless stopped or failed, exactly that number of iterations of the test body in total, spread over the threads as evenly as possible, for every combination of number and threads; an unknown name reports that the test is not found and runs nothing. A thread whose iteration fails with an error stops iterating without affecting the others, and the run ends when all threads are done.",
  ["schedules", "configurations", "inputs"], "every number and thread count up to a bound (including zero and number < threads), every interleaving up to a preemption bound, every failing iteration",
  "The command test only runs the default of one thread and one iteration.",
  ["cmd/src/command.rs", "cmd/src/main.rs"],
  [("per-thread quota", "cmd/src/command.rs test"), ("join", "cmd/src/command.rs test")],
  observe=["number of requests per run and per thread", "process termination"])
p("C23", "A stop request ends the run after the iterations in progress",
  "When the duration of a named run elapses or an interrupt signal arrives, at any moment after the run has started, every thread finishes the iteration it is in, starts no further one, and everything done is still printed, recorded and counted; then the process ends normally. Before the stop no thread pauses or ends early: with a duration and no other limit every thread keeps iterating until it elapses.",
  ["schedules", "crash_points", "histories"], "every point of the run at which the timer or the signal can fire, every interleaving up to a preemption bound",
  "No test uses a duration or sends a signal.",
  ["cmd/src/command.rs", "cmd/src/main.rs"],
  [("continuous flag", "cmd/src/command.rs test, handle_interrupt"), ("timer thread", "cmd/src/command.rs test")],
  state=[("continuous", "whether further iterations may start", "cmd/src/command.rs")],
  observe=["requests started after the stop", "output completeness", "exit status"])
p("C24", "Threads and tests never share variables",
  "Every thread of a named run and every test of a full run starts from the variables and requests defined at top level and from nothing else; what one assigns is never visible to another and never changes the top-level definitions. Within one thread, the variables an iteration leaves behind are exactly what the next iteration starts from.",
  ["schedules", "histories", "programs"], "every interleaving of threads that assign and read the same names, up to a preemption bound; every small set of tests sharing names",
  "The command test has a single test, thread and iteration.",
  ["cmd/src/command.rs", L+"context.rs"],
  [("context copied per thread", "cmd/src/command.rs test, lib/src/context.rs Clone")],
  observe=["requests sent by each thread"])
p("C25", "A full run executes every test exactly once and waits for all of them",
  "Running without a test name executes the top-level code once and then every defined test exactly once, concurrently; an error or failing assertion in one test neither prevents nor repeats another, and the process ends only after all of them are finished and reported, and always ends when they are. If the top-level code fails to parse or run, the error is printed and no test runs.",
  ["schedules", "programs"], "every small set of tests with succeeding, failing and empty bodies, every interleaving up to a preemption bound",
  "The command test runs one test.",
  ["cmd/src/command.rs"],
  [("thread per test and join", "cmd/src/command.rs test")],
  observe=["requests per test", "standard output", "process termination"])
p("C26", "The statistics summarise exactly the recorded calls",
  "With --stat the run ends with one line per request name that was called, giving the exact count, sum, floor of the average, maximum and minimum of the total times in whole milliseconds of all calls of that name reported in the run, for every order in which the threads deliver them; names never called have no line. It is printed once, after all reports.",
  ["schedules", "histories", "inputs"], "every sequence of call durations over several names up to a bound, every interleaving of delivering threads up to a preemption bound, named and full runs",
  "There is no test of the statistics.",
  [L+"stat.rs", "cmd/src/command.rs"],
  [("running aggregate", L+"stat.rs Stat::add"), ("channel from the threads", "cmd/src/command.rs test")],
  state=[("stats", "aggregate per request name", L+"stat.rs Stats")],
  observe=["standard output"])
p("C27", "Reports of concurrent calls are never interleaved",
  "In the standard output of every run the lines of one call's report (header, assertions, verdict) appear together and complete, never with a line of another report in between, and no line that is printed as a whole is ever split or merged with another thread's output, however the threads are scheduled and however the output is cut into writes.",
  ["schedules", "fault_sequences"], "every interleaving of reporting threads up to a preemption bound, including short and interrupted writes to standard output",
  "The command test has one thread.",
  ["cmd/src/command.rs", L+"context.rs", L+"native.rs"],
  [("one println per report", "cmd/src/command.rs test"), ("Display for Record", L+"context.rs")],
  observe=["standard output"])
p("C28", "Record files are valid Avro and decode to exactly what happened",
  "Every record file is a valid Avro object container (header with schema, blocks with sync marker) that any reader following the embedded schema can read to the end, and the decoded records are, in order, exactly the calls of the file's thread: test name, thread, iteration, position in the iteration, times, complete request, complete response, assertions and error, for every text, size, count and number that can occur. Iterations without calls leave no trace and make nothing unreadable.",
  ["inputs", "histories"], "every sequence of record batches over a boundary-value alphabet for every field",
  "test_writer writes one record with no headers, no assertions and empty strings and prints what it reads back.",
  [L+"writer.rs", L+"context.rs", "cmd/src/command.rs"],
  [("Avro encoding", L+"writer.rs encode_*"), ("schema", L+"writer.rs META")],
  observe=["record file bytes"])
p("C29", "Recorded iterations survive a kill and write faults do not corrupt the file",
  "Once an iteration is over and the thread goes on to the next, its records are in the operating system's file: if the process is killed at any later point, the file still yields all of them and at most the last block is incomplete. Short or interrupted writes by the operating system never lose, repeat or reorder bytes. Each thread writes only its own file (POD keeps those of different processes apart), and nothing of an earlier run remains in it.",
  ["crash_points", "fault_sequences", "schedules"], "every kill point between and inside the write operations of a recorded run, every pattern of short and interrupted writes up to a bound",
  "No test records to a file.",
  [L+"writer.rs", "cmd/src/command.rs"],
  [("one block written per iteration", L+"writer.rs Writer::write"), ("file per thread", "cmd/src/command.rs writer")],
  observe=["sequence of write system calls on the record files"])
p("C30", "Command-line durations mean what they say or are rejected",
  "A duration argument is accepted exactly when it is a decimal number that fits the unit followed by s, m or h, and then the run is stopped after exactly that many seconds, minutes or hours; every other text is rejected with a usage error before anything runs. No text given as duration, number or thread count and no combination of them crashes the tool.",
  ["inputs", "configurations"], "every short string over digits, units, signs, blanks and non-ASCII characters and every boundary number; boundary number/thread counts",
  "No test passes a duration, number or thread count.",
  ["cmd/src/main.rs", "cmd/src/command.rs"],
  [("parse_duration", "cmd/src/main.rs"), ("quota", "cmd/src/command.rs test")],
  observe=["exit status", "length of the timer the run sets"])
p("C31", "eval runs exactly the one program it is given",
  "The eval command runs its one argument as a program: it prints exactly what the program prints, then its value - or, where a statement fails or the text is no program, what was printed before and one error message - as a line, makes exactly the program's calls, and ends normally. Neither source files nor standard input are read, tests the text defines are not run, and a failing statement stops the rest. Command lines that are no command are usage errors that run nothing.",
  ["inputs", "programs"], "every token sequence and every statement sequence up to a bound as argument, programs up to the size of an argument, wrong command lines",
  "No test runs the eval command with more than a fixed text.",
  ["cmd/src/main.rs", "cmd/src/command.rs"],
  [("eval", "cmd/src/command.rs eval"), ("command line", "cmd/src/main.rs")],
  observe=["standard output", "exit status", "requests on the wire"])
p("C32", "Calls leave nothing behind",
  "When a call is over, however it ended, its connection is closed (once) and no data follows. A call makes no other connection than the attempts at the addresses of its host; each other connection attempted for it (the losers of the race between addresses) is closed unused as soon as the attempt and the race are over. So a run of any length holds at most one connection in use per thread, and neither connections nor threads of finished calls accumulate.",
  ["fault_sequences", "schedules", "histories"], "every end of a call at every byte of request and response, plain and TLS; every address race up to a bound and its schedules; long runs",
  "A test makes one call and looks at its value only; leaks show after thousands of calls.",
  [L+"http/client.rs", L+"http/stream.rs", "cmd/src/command.rs"],
  [("one connection per call", L+"http/client.rs"), ("attempt threads", L+"http/stream.rs")],
  observe=["connect and close system calls", "threads started and ended"])
p("C33", "Definitions hold for the whole source and names of different kinds never mix",
  "A request or test definition holds for its whole source: it is known before the first statement runs, wherever it stands, and of several definitions with one name the last counts entirely (message and assertions). Later texts of a session see the definitions of earlier ones, also where a statement failed; a text that does not parse defines nothing. Requests, tests and variables have separate name spaces, so defining or setting one never changes another, different names - however alike or long - never denote the same thing, and a request hides the built-in function of its name. The arguments of a request call are evaluated first, from left to right, and if one fails no request is sent. A definition inside a block or expression is an error of the syntax.",
  ["programs", "histories"], "every sequence of definitions and uses up to a bound in one text and over several, every name up to a length in every role, many definitions",
  "The parser tests look at single definitions; no test defines anything twice, late, or under a name used for something else.",
  [L+"parser.rs", L+"context.rs", L+"evaluator.rs", "cmd/src/command.rs"],
  [("collecting definitions", L+"parser.rs parse"), ("requests of the session", L+"context.rs extend"), ("request before built-in", L+"evaluator.rs eval_call_expr"), ("choosing the test", "cmd/src/command.rs test")],
  state=[("requests", "message and assertions by name", L+"context.rs Context")],
  observe=["requests on the wire", "standard output", "variables"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
