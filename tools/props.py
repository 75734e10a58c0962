import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s,"meaning":"run-time state","where":"Context"} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
R="src/runtime/"; C="src/compiler/"
RUN="the events returned to the caller by each step of an execution"
p("P01","A message is never silently lost: implicit keep and final disposition",
 "An execution ends with exactly one keep, discard or nothing, and it ends with nothing only after the message was rejected, filed or redirected without :copy. The implicit keep is delivered unless such an action, or discard, cancelled it; it is delivered too when the script stops early, hits a run-time error or exhausts its budget, and it carries the flags in force.",
 ["programs","histories"],"all scripts, all orders of delivery actions on any control path, all host answers, all points where execution stops or fails",
 "Tests assert the final action of a few fixed scripts; the guarantee is about every sequence of actions and every way a run can end.",
 [R+"context.rs",R+"actions/action_fileinto.rs",R+"actions/action_redirect.rs"],
 [("final action resolution","Context::run end of loop"),("error path","Context::finish_loop"),("cancellation","FileInto::exec, Redirect::exec, Reject, Discard")],["final_event","queued_events"],[RUN])
p("P02","Every execution stays within its instruction budget and terminates",
 "However loops, jumps and includes are combined, an execution performs at most the configured number of instructions in total (across included scripts and across host calls) and then fails with the budget error, after which the pending keep is still delivered; a script that needs no more than the budget never gets that error. Once an execution has finished, running it again yields nothing.",
 ["programs","histories"],"all scripts including non-terminating loops and recursive includes, all budgets, all host answers",
 "A unit test samples a handful of loops; the bound must hold for every composition of loops, includes and suspensions.",
 [R+"context.rs"],[("instruction counter","Context::run"),("loop jumps","Instruction::Jmp/While/ForEveryPart")],["num_instructions"],[RUN])
p("P03","Conditions and control flow follow boolean and block semantics",
 "allof, anyof, not and nested or parenthesised combinations of tests evaluate as boolean logic with left-to-right short-circuiting, so a test that is not needed neither asks the host nor sets match variables. Exactly one branch of an if/elsif/else chain runs; while loops, break, continue, stop and return transfer control to exactly the place their block structure dictates.",
 ["inputs"],"all test trees and nested block structures, all truth assignments and host answers",
 "The space of nested test trees and branch layouts is unbounded and jump-target mistakes show only on particular shapes and truth values.",
 [C+"grammar/test.rs",C+"grammar/instruction.rs",R+"context.rs"],
 [("short-circuit jump compilation","CompilerState::parse_test"),("branch patching","Compiler::compile block end"),("negated host answers","TestResult::Event is_not")],["test_result","pos"],[RUN])
p("P04","Included scripts run in their own scope and return to their caller",
 "An include runs the named script to its end or its return and then resumes the caller right after the include with the caller's local and match variables intact, while stop in any depth ends the whole execution. A script the host already supplied is not requested again, :once never runs a script twice in one execution, a missing script is skipped, and nesting beyond the configured depth fails with the include error.",
 ["inputs","histories"],"all include graphs (nested, repeated, recursive, personal and global), all host replies",
 "Call-stack behaviour depends on the whole include graph and the host's replies; tests cover a few fixed graphs.",
 [R+"actions/action_include.rs",R+"context.rs"],[("activation stack","ScriptStack"),("script cache","Include::exec")],["script_stack","script_cache","pos"],[RUN])
p("P05","Variables hold what the script last assigned, within their scope",
 "A variable reference expands to the value most recently assigned to that name (case-insensitively) in the scopes visible at that point, and to the empty string if none: names first set inside a block are visible only in that block and the blocks it contains, :local names in the whole script, and global names in every script of the execution and to the host. Modifiers apply in RFC 5229 precedence order whatever order they are written in, and stored values are cut at a character boundary to the configured size.",
 ["inputs"],"all block structures, assignments, modifier sets, references and size limits",
 "Slot allocation and modifier interplay depend on the whole program text; tests exercise few nestings and modifier pairs.",
 [C+"grammar/instruction.rs",C+"grammar/actions/action_set.rs",C+"lexer/string.rs",R+"actions/action_set.rs"],
 [("scope slots","register_local_var, block_end, map_local_vars"),("modifiers","Modifier::apply"),("truncation","Context::set_variable")],["vars_local","vars_global"],[RUN,"global variables readable after the run"])
p("P06","Match variables hold the captures of the last successful match",
 "After a successful :matches or :regex test, ${0} expands to the matched value and ${n} to what the n-th wildcard or group captured, for references in the same block as the test or blocks inside it; the captures of a failed test do not change them. They are cleared when the enclosing block ends and do not leak into or out of included scripts.",
 ["inputs"],"all patterns, subjects and placements of tests and references in nested blocks",
 "Capture positions depend on backtracking over arbitrary pattern/subject pairs and on compile-time bookkeeping over block structure.",
 [R+"tests/glob.rs",R+"variables.rs",C+"grammar/instruction.rs",C+"grammar/mod.rs"],
 [("glob capture","GlobPattern"),("capture registration","register_match_var"),("clearing","Instruction::Clear")],["vars_match"],[RUN])
p("P07","String comparison implements match types and comparators exactly",
 "For every test that takes keys, the test is true iff some value and some key satisfy the match type: equality, substring, glob (* and ?, with backslash escapes), relational :value, or :count of values, under the chosen comparator (octet exact, ascii-casemap case-insensitive, ascii-numeric by number with non-numbers as positive infinity); not inverts exactly that. The outcome does not depend on the order of keys.",
 ["inputs"],"all values, key lists, match types and comparators",
 "It is a universally quantified relation over pairs of strings and lists.",
 [R+"tests/comparator.rs",R+"tests/glob.rs",R+"tests/test_string.rs"],[("comparators","Comparable"),("glob","GlobPattern"),("key loops","TestString::exec and siblings")],None,[RUN])
p("P08","Header, address, envelope, exists and size tests inspect the right values",
 "The header, address, envelope, exists, size and body tests apply the match to exactly the occurrences and parts the script names: all listed header names regardless of case, the :index-th occurrence from the start or, with :last, from the end, the chosen address part of every listed address, the current MIME part or with :anychild its descendants. They see the message as edited so far.",
 ["inputs"],"all messages, header lists, indexes, address parts, edit histories",
 "Selection depends on combinations of message structure and arguments that sample tests cannot enumerate.",
 [R+"tests/test_header.rs",R+"tests/test_address.rs",R+"tests/test_envelope.rs",R+"tests/test_exists.rs",R+"tests/test_size.rs",R+"tests/test_body.rs"],[("header selection","find_headers"),("address parts","AddressPart::eval"),("envelope","TestEnvelope::exec")],["message","envelope"],[RUN])
p("P09","Every delivery refers to the message version current at that point",
 "After the script edits the message, the next action that delivers it is preceded by exactly one event carrying the complete edited message under a fresh, increasing identifier, and that delivery and later ones refer to that identifier until the next edit. Unedited messages are never re-sent, and every identifier used by a delivery is 0 or was announced before.",
 ["inputs","histories"],"all interleavings of edits and delivery actions, including the implicit keep and error ends",
 "It is a protocol over arbitrary sequences of edits and actions.",
 [R+"context.rs",R+"actions/action_mime.rs",R+"actions/action_editheader.rs"],[("message versions","Context::build_message_id"),("final keep","Context::run, finish_loop")],["has_changes","main_message_id","last_message_id"],[RUN])
p("P10","Header edits change exactly the addressed fields",
 "addheader adds one field at the top, or with :last at the bottom, of the header; deleteheader removes exactly the fields selected by name, :index/:last and value match; protected fields and invalid names are left alone. The resulting message contains every other header field and the body byte for byte and in the original order, and later tests see the edited header.",
 ["inputs","histories"],"all messages, all sequences of edits",
 "Edits compose; errors in index handling show only for particular multiset/index/edit-order combinations.",
 [R+"actions/action_editheader.rs",R+"actions/action_mime.rs"],[("insertion and deletion","AddHeader::exec, DeleteHeader::exec"),("rebuild","Context::build_message")],["message","message_size"],[RUN])
p("P11","foreverypart visits each MIME part exactly once, in order",
 "A foreverypart loop runs its body once per MIME part of the message (or, nested, of the current part) in depth-first order, with header and body tests bound to that part; the enclosing position is restored after the loop, also when it is left by break, labelled break, continue of an outer loop or return.",
 ["inputs"],"all MIME trees, loop nestings and exits",
 "Iterator stack mistakes depend on tree shape and the kind of exit taken.",
 [R+"context.rs",R+"actions/action_mime.rs",C+"grammar/instruction.rs"],[("part iteration","ForEveryPart/Push/Pop"),("part listing","find_nested_parts_ids")],["part","part_iter","part_iter_stack"],[RUN])
p("P12","replace, enclose and extracttext keep the rest of the message intact",
 "replace substitutes exactly the current part's content and leaves every sibling part unchanged, enclose makes the previous message a nested part of a new multipart message, and extracttext stores the current part's text (with :first at most that many characters) in the variable. Rebuilt messages keep all other bytes, including parts nested around the change.",
 ["inputs","histories"],"all MIME trees and sequences of part operations",
 "Rebuild correctness is a property of arbitrary trees and operation sequences.",
 [R+"actions/action_mime.rs"],[("replacement","Replace::exec"),("enclose","Enclose::exec"),("rebuild","Context::build_message")],["message"],[RUN])
p("P13","redirect forwards only within limits and never to its own user",
 "A redirect to a syntactically valid address sends the message once to that address (or list) with the requested delivery options and cancels the implicit keep unless :copy is given. A redirect to an invalid address, to the user's own address, beyond the redirect or outgoing-message limit, or of a message with too many Received fields sends nothing and leaves the implicit keep in force.",
 ["inputs","histories"],"all address strings, sequences of redirects and other sending actions, limits, trace headers",
 "Limits and keep interplay depend on the whole action history.",
 [R+"actions/action_redirect.rs"],[("limits and loop checks","Redirect::exec"),("address check","sanitize_address")],["num_redirects","num_out_messages","final_event"],[RUN])
p("P14","vacation replies at most once, only to personal mail, via the host's dedupe",
 "vacation sends a reply only if the sender is a real, non-automatic return path, the message is not bulk, list or auto-submitted mail, one of the user's addresses is an explicit recipient, and the host reports that this response was not sent before; otherwise it sends nothing. It never affects the keep, asks the host with an identifier and expiry derived from the script's arguments, and the reply goes to the sender with the proper subject and reply headers.",
 ["inputs","histories"],"all messages, envelopes, arguments, host answers",
 "The decision is a conjunction over many independent header and argument conditions.",
 [R+"actions/action_vacation.rs"],[("decision","TestVacation::exec"),("reply","Vacation::exec")],["num_out_messages"],[RUN])
p("P15","notify reaches exactly the requested target with the requested content",
 "notify with a supported method emits one notification carrying the given method, importance, options, sender and message (default text when absent), and for mail targets an outgoing message to each valid recipient, within the outgoing-message limit and never as a reply to automatic mail. It never affects the keep or the message being filtered.",
 ["inputs","histories"],"all method URIs, arguments, messages and preceding send actions",
 "The URI grammar and limit history are unbounded input spaces.",
 [R+"actions/action_notify.rs",R+"tests/test_notify.rs"],[("notify","Notify::exec"),("mailto parsing","parse_mailto")],["num_out_messages"],[RUN])
p("P16","Flag commands behave as operations on a case-insensitive set",
 "setflag, addflag and removeflag on the internal or a named variable make it hold exactly the resulting set of flags, without duplicates, regardless of case and of how flags are grouped into strings; hasflag reports membership in that set. keep and fileinto deliver the flags given with :flags, or else the current internal set.",
 ["inputs","histories"],"all sequences of flag commands, lists and spellings",
 "Set semantics must survive arbitrary command sequences.",
 [R+"actions/action_flags.rs",R+"tests/test_hasflag.rs"],[("edit","EditFlags::exec"),("tokenize","tokenize_flags")],["vars_global"],[RUN])
p("P17","Expressions evaluate correctly across external function suspension",
 "let, eval and while evaluate arithmetic, comparison, logical and string expressions with the documented precedence, left associativity and short-circuiting; a function implemented by the host receives its arguments in order, is called exactly when needed, and evaluation continues with the host's result as if it had been a constant.",
 ["inputs","histories"],"all expressions, variable values and function results",
 "Operator combinations with suspension points form an unbounded space.",
 [R+"expression.rs",C+"grammar/expr/parser.rs",C+"grammar/expr/tokenizer.rs"],[("evaluation with suspension","Context::eval_expression"),("precedence","ExpressionParser")],["expr_stack","expr_pos"],[RUN])
p("P18","Each host query is answered for exactly the test that asked it",
 "mailboxexists, external list, duplicate and similar tests ask the host one question with exactly the names, lists, values, ids and expiry the script denotes, and the answer (inverted under not) becomes the outcome of that test alone. Tests the run-time can decide by itself ask nothing.",
 ["inputs","histories"],"all placements of queries in test trees, all answers",
 "Answer routing depends on the position of the suspended test and on every combination of answers.",
 [R+"tests/test_duplicate.rs",R+"tests/test_extlists.rs",R+"tests/mod.rs",R+"tests/test_string.rs",R+"context.rs"],[("suspension","TestResult::Event"),("answer","Context::run Input")],["test_result"],[RUN])
p("P19","Extensions work only when declared and permitted",
 "A script using an extension's command, test or argument compiles only if a require visible at that point declares it (unless checking is off), and executing a require for a capability the run-time does not permit fails before anything after it runs. ihave is true exactly when all its capabilities are permitted, and its guarded block may use them; unknown commands guarded by ihave fail only if executed.",
 ["programs","inputs"],"all scripts, require placements and capability configurations",
 "The check must cover every extension use site and configuration.",
 [C+"grammar/mod.rs",C+"grammar/actions/action_require.rs",C+"grammar/tests/test_ihave.rs",R+"context.rs"],[("static check","validate_argument"),("run-time check","Instruction::Require, TestIhave")],["allowed_capabilities"],["compile results and run-time errors"])
p("P20","Configured size and count limits are never exceeded",
 "No execution stores a variable, adds a header or sends more messages beyond the configured maxima, whichever command produces them, and no script exceeding a configured compile-time limit (script, string and name sizes, nesting of blocks, tests and part loops, variables, includes) is accepted, while scripts within all limits are not refused for size.",
 ["inputs","histories"],"all limits, all ways of approaching them",
 "Each limit has many entry points; boundary behaviour must hold at all of them.",
 [R+"actions/action_set.rs",R+"actions/action_mime.rs",R+"actions/action_editheader.rs",C+"grammar/instruction.rs",C+"lexer/tokenizer.rs"],[("variable size","Context::set_variable"),("nesting limits","Compiler::compile, parse_test")],["vars_local","vars_global"],[RUN,"compile results"])
p("P21","A compiled script survives serialisation unchanged",
 "A compiled script that is serialised and deserialised, with any supported encoding, behaves in every execution exactly as the original.",
 ["programs","histories"],"all scripts, messages and host answers",
 "Behavioural equality over all programs cannot be sampled by field tests.",
 [C+"mod.rs","src/lib.rs"],[("serialisation","derive serde/rkyv, Regex (de)serialisation")],None,[RUN])
p("P22","Executions are deterministic and independent of each other",
 "The events of an execution are determined by the script, message, configuration and host answers alone: sharing one run-time and one compiled script between any number of concurrent or successive executions changes none of them.",
 ["schedules","histories"],"all schedules of concurrent executions, all re-uses",
 "Interleavings cannot be enumerated by unit tests.",
 [R+"context.rs","src/lib.rs"],[("shared runtime","Runtime"),("per-run state","Context")],None,[RUN])
p("P23","Compilation accepts or rejects any input cleanly and locates errors",
 "For every byte sequence the compiler returns either a script or an error naming a line within the input, never panicking or looping; well-formed scripts are accepted, ill-formed ones rejected, and compiling the same source twice gives the same result. Executing any accepted script on any message never panics.",
 ["inputs"],"all byte strings as scripts, all messages",
 "Arbitrary input is not enumerable by examples.",
 [C+"lexer/tokenizer.rs",C+"grammar/instruction.rs",C+"lexer/string.rs"],[("tokenizer","Tokenizer"),("parser","Compiler::compile")],None,["compile results"])
p("P24","Script or message text cannot inject header fields into generated mail",
 "Whatever text variables, message headers or script arguments contain, messages the engine edits or generates contain only the header fields the action is meant to produce: line breaks inside values never start a new field or end the header.",
 ["inputs"],"all values, including ones with CR and LF, reaching generated headers",
 "Injection needs particular unusual inputs at each of many sites.",
 [R+"actions/action_editheader.rs",R+"actions/action_vacation.rs",R+"actions/action_notify.rs",R+"actions/action_mime.rs"],[("header writing","AddHeader::exec, write_header, Vacation::exec, Notify::exec")],None,[RUN])
p("P25","environment, metadata, spamtest, virustest and date tests report the facts given",
 "The environment, mailbox and server metadata, spam, virus and date tests compare the keys against exactly the item, annotation, scaled score or date part the host or message supplies, with absent items never matching.",
 ["inputs"],"all host-supplied facts and arguments",
 "The mapping from facts to compared strings must be right for every value and part.",
 [R+"tests/test_metadata.rs",R+"tests/test_spamtest.rs",R+"tests/test_date.rs",R+"tests/test_string.rs"],[("score scaling","spamtest"),("date parts","DatePart::eval")],["metadata","vars_env","spam_status","virus_status"],[RUN])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    assert len(x["title"])<=80,x["title"]
print(len(P))
