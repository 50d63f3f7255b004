#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they can be edited readably."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LEX="internal/reader/lexer/lexer.go"; PAR="internal/reader/parser/parser.go"; ACT="internal/engine/task/action.go"
BOOT="internal/engine/boot/boot.oh"
prop("C01","Text is split into tokens exactly as the lexical rules say",
 "For every input text, the sequence of words, quoted strings, operators, separators and blanks the reader produces is exactly the one the lexical rules define: operators by longest match and named as documented, quotes and backslashes protecting what they enclose, comments, blanks after operators and line continuations dropped. No character of a word or quoted string is ever lost, duplicated, altered or moved to another token.",
 ["inputs"],"every byte string fed to the lexer",
 "The seven lexer tests sample a dozen one-line inputs; the rules quantify over all character sequences, and mistakes hide in rare character adjacencies.",
 [LEX,"internal/common/struct/token/token.go"],[("state functions of the scanner",LEX),("operator table",LEX)],observe=["tokens returned by the lexer"])
prop("C02","How input is divided into lines or pieces never changes what is read",
 "Feeding a text to the reader in pieces - line by line, or with the boundary anywhere, even inside an operator, quoted string, comment or escape - yields the same tokens and the same commands in the same order as feeding it at once; several commands completed by one piece come as one block of them, in order. A command still open at the end of a piece waits for the rest, as do those before it in the piece: it is never dropped, truncated, run early or read twice. The end of a file ends its last line.",
 ["inputs","histories"],"every text and every way of cutting it into consecutive pieces",
 "Tests feed complete single lines; the resumption states of the scanner (saved state, leftover bytes) are only reached when a piece ends in the middle of a token.",
 [LEX,PAR,"internal/reader/reader.go","internal/common/type/pipe/pipe.go"],[("leftover bytes are prepended to the next buffer",LEX),("the parser blocks for the next token",PAR),("hand-over of lines and commands","internal/reader/reader.go")],
 state=[("bytes/first/index/state/saved","where scanning stopped in the current buffer",LEX)])
prop("C03","Every word knows the file and line it came from",
 "Every token read carries the label of its source and the line number on which it ends - one plus the number of line breaks before its last character, counting those inside quoted strings, comments and continuations - and, for a token on a line read in one piece, the column where it starts and the text of the line from there. Error traces built from these locations therefore point at the code that failed.",
 ["inputs","histories"],"every text, including multi-line strings, comments and continuations, fed as lines",
 "Tests check locations on a few single-line inputs only.",
 [LEX,"internal/common/struct/loc/loc.go","internal/common/type/sym/plus.go"],[("line and column accounting while accepting runes",LEX),("location copied into each token",LEX)],observe=["source location of tokens"])
prop("C04","Commands group as the grammar says and malformed text is an error",
 "Every well-formed text parses to the structure its operators denote: background binds loosest, then or, and, pipe (right to left), sequence (whose parts may be empty), redirection (left to right) and process substitution; braces after a command, parentheses, command substitution, variable reference, adjacency and pre-command assignment produce the documented forms with every operand in place. Text that is not well-formed ends in an error or waits for more input; it never hangs the reader or loses a later command.",
 ["inputs","programs"],"every sequence of tokens",
 "The parser tests compare a print-reparse fixed point on seven commands and the boot script; they fix neither grouping nor behaviour on malformed input.",
 [PAR],[("recursive descent, one function per precedence level",PAR)],observe=["cells passed to the parser's emit function","error returned by the parser"])
prop("C05","Data written as literals reads back as equal data",
 "Every string (any bytes), number, status, every symbol made of the characters allowed in variable names, the empty list, and every list and pair built from them, printed in literal form and read again yields an equal value of the same type: a list as a command, anything else as an element of one. Likewise the literal form of any command that was read, other than symbols made by meta commands, reads back as the same command.",
 ["inputs"],"every value built from strings, symbols, numbers, statuses, lists and pairs; every readable text",
 "Tests round-trip four fixed literals and seven fixed commands; the escapes and the nesting cases are unbounded.",
 ["internal/common/type/pair/pair.go","internal/common/type/str/str.go","internal/common/type/sym/sym.go","internal/common/type/num/num.go","internal/common/type/status/status.go",PAR,LEX],[("literal representation of each type","internal/common/type/*/"),("meta commands (|...|)",PAR)],observe=["literal form","values read back"])
prop("C06","Tab completion never disturbs the command being typed",
 "Analysing a partial line for completion works on a copy: whatever text is scanned and parsed in the copy, and however far, the original reader afterwards produces the same tokens and commands from the rest of the input as if completion had never run. The copy starts from exactly the original's position, and reports the command words typed so far.",
 ["inputs","histories"],"every input prefix, completion text and continuation",
 "No test exercises completion or copies of the lexer or parser.",
 [LEX,PAR,"main.go"],[("lexer copy",LEX),("parser copy",PAR)])
prop("C07","Equality is an equivalence relation on every kind of value",
 "Comparing any two (non-cyclic) values for equality gives a yes or no answer and never an error: it is reflexive, symmetric and transitive, distinguishes types, compares strings and symbols by content, numbers and statuses by exact value, lists and pairs element by element (so lists of different length differ), and everything else by identity. The chained form on n values holds exactly when every neighbouring pair is equal.",
 ["inputs"],"every pair and triple of values, including nested and improper lists",
 "Equality has no unit tests; doctests compare a handful of symbols.",
 ["internal/common/type/pair/pair.go","internal/common/type/sym/sym.go","internal/common/type/str/str.go","internal/common/type/num/num.go","internal/common/type/status/status.go","internal/engine/commands/relational.go"],[("Equal method of each cell type","internal/common/type/*/"),("equal? command","internal/engine/commands/relational.go")])
prop("C08","All conditionals agree on what is true",
 "A number is true exactly when it is not zero, a status exactly when it is zero, the empty list is false, and every other value is true. Conversion to boolean, negation, if, while, and, or, and the exit status of the shell all use this one notion, and truth-valued commands answer only with the canonical true symbol or the empty list.",
 ["inputs"],"every value in every conditional position",
 "Doctests exercise a few conditions with fixed operands.",
 ["internal/common/interface/boolean/boolean.go","internal/common/type/num/num.go","internal/common/type/status/status.go","internal/engine/commands/logical.go","internal/common/type/create/create.go",ACT],[("boolean.Value","internal/common/interface/boolean/boolean.go")])
prop("C09","Arithmetic is exact and leaves its operands alone",
 "Addition, subtraction, multiplication and division of any number of operands give the exact rational result, with no overflow or rounding, and modulo gives the Euclidean remainder of two integers. Operands keep their values, the result is a new number, and invalid operands (non-numeric, non-integer for modulo, zero divisor, too few) raise an error instead of producing a value.",
 ["inputs"],"every list of rational operands of any size",
 "Doctests add and subtract small integers only.",
 ["internal/engine/commands/arithmetic.go","internal/common/type/num/num.go","internal/common/interface/rational/rational.go"],[("big.Rat accumulators","internal/engine/commands/arithmetic.go")])
prop("C10","Ordering comparisons hold exactly when every neighbouring pair does",
 "A chained comparison (less, less or equal, greater, greater or equal) of two or more numbers is true exactly when the relation holds between each operand and the next, by exact rational value; it answers true or the empty list and leaves its operands unchanged. Fewer than two operands or a non-number among the operands examined raises an error.",
 ["inputs"],"every list of two or more rational operands",
 "Doctests compare two small integers.",
 ["internal/engine/commands/relational.go"],[("pairwise loop","internal/engine/commands/relational.go")])
prop("C11","List indexing and slicing select exactly the elements asked for",
 "For every list and every integer index or bounds, get, slice, length, head, tail and reverse return exactly the elements a zero-based sequence with negative indices counting from the end defines: a missing or zero end means the end, bounds past the end are clamped, and out-of-range or crossed bounds raise an error or yield the supplied default. Indices of any magnitude are handled, and the original list is unchanged and shares no structure with a slice or reversal.",
 ["inputs"],"every list length and every pair of 64-bit indices",
 "No test calls these operations with negative, boundary or extreme indices.",
 ["internal/common/type/list/list.go","internal/engine/commands/list.go"],[("Slice, Tail, Length, Reverse","internal/common/type/list/list.go")])
prop("C12","List updates change exactly the list they name",
 "Append adds its argument as the one new last element of the list it is applied to and extend adds each element of its argument in order, in place; extend copies, so later changes to either list's structure do not show in the other, and extending a list with itself doubles it. Setting head or tail changes only that cell, and every reference to the list sees the update.",
 ["inputs","histories"],"every pair of lists and every sequence of updates",
 "No test mutates shared lists.",
 ["internal/common/type/list/list.go","internal/engine/commands/list.go","internal/common/type/pair/pair.go"],[("Append, Join","internal/common/type/list/list.go")])
prop("C13","String operations return exactly the text they define",
 "Length, slice, replace, trim-prefix, trim-suffix, upper and lower act on every string exactly as defined, with bounds clamped, negative ends counted from the end, and impossible bounds raising an error. Splitting a text at a separator and joining the pieces with it restores the text, joining inserts the separator only between pieces, and the result is a string exactly when some piece is a string, otherwise a symbol.",
 ["inputs"],"every string, separator and pair of bounds",
 "Doctests format and replace fixed text only.",
 ["internal/engine/commands/string.go","internal/engine/commands/core.go"],[("sslice, sreplace, mend, rend","internal/engine/commands/")])
prop("C14","Names resolve to the innermost visible definition",
 "After any sequence of define, export, set and unset in nested scopes, looking a name up gives the value most recently given to it by the innermost scope that has it (in one scope, a private definition hides an exported one); define and export touch only their own scope, set updates the binding that lookup finds and fails when there is none, and unset removes just that binding, uncovering any outer one. A copy of an environment starts with the same bindings and is independent afterwards.",
 ["histories"],"every sequence of scope operations on nested scopes",
 "Two doctests check one shadowing and one missing-name case.",
 ["internal/common/type/env/env.go","internal/common/struct/hash/hash.go","internal/common/struct/slot/slot.go",ACT],[("Lookup, Define, Export, Remove, Clone","internal/common/type/env/env.go")])
prop("C15","Private names of an object are unreachable from outside",
 "Through a reference to an object only its exported names can be looked up, called, set, tested or unset: no operation on the object reads, changes, removes or reveals a name defined privately in it or in a scope enclosing it, and private names cannot be added from outside. Code inside the object still sees both.",
 ["histories","inputs"],"every set of private, public and enclosing names and every operation on the object",
 "One doctest reads one public member.",
 ["internal/common/type/obj/obj.go","internal/common/type/env/env.go",ACT],[("object wrapper exposes only the public hash","internal/common/type/obj/obj.go")])
prop("C16","Callees and external commands see exactly the exported environment",
 "A name not visible lexically resolves to the exported binding of the nearest caller that has one, never to a private name of a caller. The environment given to an external command has, for every name whose innermost exported binding, found the same way, has a string value, exactly one entry with that value, and no private names.",
 ["histories","inputs"],"every call chain and every assignment of public and private names to its scopes",
 "One doctest checks one dynamic lookup two calls deep; none inspects the environment of a child process.",
 ["internal/common/struct/frame/frame.go","internal/engine/task/task.go","internal/common/struct/hash/hash.go"],[("frame.Resolve","internal/common/struct/frame/frame.go"),("Environ","internal/engine/task/task.go")])
prop("C17","Control structures run exactly the commands they should, in order",
 "A block runs its commands in order in a fresh scope and yields the last value; if runs exactly the branch its condition selects, through any chain of else if, and nothing when none applies; while runs its body once per true condition and stops at the first false one; and/or evaluate left to right, stop at the first deciding operand, and yield it. After each of them evaluation continues with the next command in the original scope.",
 ["programs","inputs"],"every outcome of every condition, for nested control structures",
 "Doctests run a few fixed loops and conditions; branch combinations and scope restoration are unchecked.",
 [ACT,"internal/engine/task/registers.go",BOOT],[("evalIf/execIfBody/evalWhile/evalBlock",ACT),("saved registers on the operation stack","internal/engine/task/registers.go"),("and/or",BOOT)])
prop("C18","Calls evaluate arguments once, in order, and bind them exactly",
 "A method call evaluates each argument exactly once, left to right, before the body runs, and binds the values to the parameters - a final list parameter takes all the rest, splice spreads a list in place, and too few or too many arguments raise an error without running the body. Syntax receives its arguments unevaluated; self, the calling environment and return are bound as named; return leaves exactly that call with its value, and the caller's scope is restored.",
 ["programs","inputs"],"every parameter list, argument count and argument value",
 "Doctests call a few methods with the right number of arguments.",
 [ACT,"internal/engine/task/closure.go","internal/engine/task/method.go","internal/engine/task/syntax.go","internal/engine/task/registers.go"],[("apply, evalArgs, execMethod, splice",ACT)])
prop("C19","Errors unwind to the nearest handler and nowhere else",
 "An error raised anywhere - by throw or by a failing command - abandons the rest of the method where the nearest enclosing handler was set, runs that handler once with the message and, when the handler returns, continues after that method in its caller's scope with its caller's bindings; code between the error and there is not run. A handler that does not return, or fails, passes an error on to the next one. With no handler the message is reported and the command ends there; it never hangs or leaves later commands in the wrong scope.",
 ["programs","fault_sequences"],"every placement of a failing command and of handlers in nested calls",
 "One doctest throws from one place.",
 ["internal/engine/task/task.go",ACT,BOOT],[("recovered panics become throw commands","internal/engine/task/task.go"),("catch and throw",BOOT),("continuations","internal/engine/task/registers.go")])
prop("C20","A value reaches an external command as exactly one unchanged argument",
 "When an external command is run, its arguments are exactly the evaluated arguments, one each, byte for byte: no string, whether quoted or the value of a variable, is split, trimmed, globbed, tilde-expanded or re-read, and a spliced list gives one argument per element. Only symbols with a leading tilde or containing pattern characters are changed: the latter are replaced by matching file names, and an unmatched pattern is an error rather than a run of the command.",
 ["inputs"],"every string value and argument list",
 "Doctests pass a few harmless words; the guarantee is about every byte sequence.",
 [ACT,"internal/engine/task/task.go"],[("external builds argv from the evaluated list",ACT),("expand touches only symbols","internal/engine/task/task.go")],observe=["argument vector given to the process launcher"])
prop("C21","Output redirection never overwrites a file unless told to",
 "Redirecting output or errors without the clobber form to anything that names an existing regular file - written as a word, a quoted string, a variable or a pattern - raises an error and leaves the file untouched, and does not run the command; the clobber form truncates, the append form only adds, input redirection requires the file and never modifies or creates it, and device files are always allowed. Afterwards the previous streams are in effect again and the opened file is closed, whether the command succeeded or failed.",
 ["inputs","fault_sequences"],"every redirection form, file name spelling, existence state and command outcome",
 "One doctest uses each form once, with unquoted names.",
 [BOOT,ACT,"internal/engine/commands/file.go"],[("make-redirect",BOOT),("exists",ACT),("open","internal/engine/commands/file.go")])
prop("C22","A pipeline or capture moves every line and reports every failure",
 "In a pipeline every line the left side writes reaches the right side once, in order, then end of input; a capture returns exactly the lines written, in order. The value of a pipeline is its last stage's value, an error in any stage or in captured code is raised in the caller after all stages end, and no stage is left running or blocked, under every interleaving of the stages.",
 ["schedules","inputs"],"every schedule of the stages, every output of each stage, and errors in any stage",
 "Doctests run a few pipelines under whatever schedule happens.",
 [BOOT,"internal/common/type/pipe/pipe.go","internal/common/type/chn/chn.go"],[("make-pipe, capture",BOOT)])
prop("C23","Channels and pipes deliver every record once, whole and in order",
 "Every value written to a channel or pipe is read exactly once and, for each writer, in the order written, under every interleaving of concurrent writers and readers; records are never mixed, split or lost, a value read equals the value written, a line read is the line written without its newline, and once the writing end is closed and drained every read reports the end. Closing an end twice is harmless for pipes.",
 ["schedules","inputs","histories"],"every schedule of concurrent writers and readers, every record content",
 "The three tests write and read a single value from one goroutine.",
 ["internal/common/type/chn/chn.go","internal/common/type/pipe/pipe.go","internal/engine/commands/conduit.go"],[("conduit implementations","internal/common/type/")])
prop("C24","Stopping, resuming and notifying a task never loses a wake-up",
 "Under every interleaving of a task's own steps with stop, interrupt, notify and restart requests, a task that is told to stop stops at its next step, a waiting task runs again once it is both notified and running, the notified value is what it receives, and a request made while it is not running has no effect later. No interleaving leaves a task blocked when it should run, running when it should be stopped, or a requester blocked forever.",
 ["schedules","histories"],"every interleaving of task state operations",
 "No test stops or resumes a task; these states arise only under job control.",
 ["internal/engine/task/state.go","internal/engine/task/task.go"],[("mutex and condition variables around the state flags","internal/engine/task/state.go")],
 state=[("exited, running, stopping, waiting","life-cycle flags of a task","internal/engine/task/state.go")])
prop("C25","Wait returns once all the tasks waited for are done, and not before",
 "Waiting on given tasks, or on all children or background tasks when none are given, completes exactly once, after every one of them has finished, and immediately when they already have; tasks not waited for, and other waiters on the same tasks, neither delay nor release it. This holds for every order in which tasks are spawned, finish, stop, are continued and are waited for.",
 ["histories","schedules"],"every order of spawn, finish, wait, stop and continue events on several tasks",
 "Doctests wait once for one background command.",
 ["internal/system/job/job_unix.go",ACT],[("wait groups","internal/system/job/job_unix.go")])
prop("C26","Tail calls and loops run in constant space",
 "Recursion in tail position - directly, through if, else, block, objects, syntaxes, and mutually - and loops of any length take a bounded amount of space: after the first iterations, what the machine holds (its stack, its results, the scopes it can still reach) does not depend on how many iterations have run. Recursion from a scope that exports variables is excepted: the callers of a method pass their exported variables on to it. Every command leaves exactly one result behind.",
 ["programs","inputs"],"every iteration count and every tail position form",
 "The continuation doctest loops 100 times and cannot observe stack growth.",
 [ACT,"internal/engine/task/registers.go"],[("last command replaces its operation; restore operations are merged","internal/engine/task/registers.go")])
prop("C27","The working directory variables always match the real directory",
 "After a successful change of directory - by cd with any argument, with none, with -, or by naming a directory as a command - PWD is the absolute path of the process's working directory and OLDPWD the previous one, and external commands start there. A failed change raises no error but answers false and leaves the directory, PWD and OLDPWD as they were.",
 ["inputs","histories","fault_sequences"],"every sequence of directory changes, with any of them failing",
 "Doctests cd to a few existing directories.",
 ["internal/engine/task/task.go",ACT],[("Chdir","internal/engine/task/task.go"),("cd",ACT)])
prop("C28","Patterns match exactly the names the pattern language describes",
 "File name and match patterns accept exactly the strings they describe: * any run, ? any one character, [...] one of the set with ranges and negation, backslash literal, everything else itself; malformed patterns are errors or match nothing. A leading dot is matched only explicitly. The names generated for a symbol in the arguments of a command are exactly the existing files its pattern describes, in order; strings and symbols without pattern characters stay as they are; a pattern no file matches is an error.",
 ["inputs"],"every pattern and every name",
 "A doctest lists a few files.",
 ["internal/engine/commands/core.go","internal/engine/task/task.go"],[("match command","internal/engine/commands/core.go"),("glob expansion","internal/engine/task/task.go")])
prop("C29","Completions only ever extend what was typed",
 "Every file completion offered begins with exactly the word typed and continues it to the full name of an existing candidate under the directory that word denotes; hidden names are offered only when the dot was typed. No word, however malformed, makes completion fail or alter the text already typed.",
 ["inputs"],"every typed word and every set of directory entries",
 "Completion has no tests.",
 ["main.go"],[("files, matches, expand, clean",  "main.go")],hook=None)
prop("C30","A command's status is its exit code, or 128 plus the signal that killed it",
 "When an external process ends, the task that started it - and only that one - receives exactly its exit code, or 128 plus the number of the signal that killed it, whether or not it dumped core, and exactly once; stops and continues deliver no status and the job's bookkeeping returns to idle when its last process is gone. This holds for every wait status and every order in which processes of several jobs stop, continue and end.",
 ["inputs","histories"],"every wait status word and every order of events on several processes",
 "Doctests see exit codes 0 and 1 only.",
 ["internal/system/job/job_unix.go"],[("notify, reap","internal/system/job/job_unix.go")])
prop("C31","The shell exits with the status the program asked for",
 "Exiting with an integer ends the shell with that exit code, with any other value 0 if it is true and 1 if not, and an uncaught error ends a script there; nothing after the exit runs. Statuses, numbers and symbols that spell one convert to integers only when they are exact integers in range.",
 ["inputs"],"every exit value",
 "Doctests do not look at the exit code of the shell.",
 ["internal/engine/engine.go",ACT,"internal/common/interface/integer/integer.go",BOOT],[("exitcode, success, Evaluate","internal/engine/engine.go")])
prop("C32","Concurrent tasks can share variables and conduits without corruption",
 "Tasks running at the same time may define, set, read, unset and copy the same variables and environments: every read returns a value some task stored, no update is torn, no operation crashes the shell, and no two accesses to the same storage are unsynchronised. The same holds for creating symbols.",
 ["schedules"],"every interleaving of operations on shared environments",
 "No test runs two tasks against one environment under a controlled schedule.",
 ["internal/common/struct/hash/hash.go","internal/common/struct/slot/slot.go","internal/common/type/env/env.go","internal/common/type/sym/sym.go"],[("read-write locks","internal/common/struct/")])
prop("C33","Interpolation replaces exactly the variable references",
 "In a double-quoted string every $name, ${name} and $$ is replaced by the string value of that variable, or a dollar sign, and every other byte is kept; values put in are not scanned again, and an unknown name raises an error. Substitution happens once, left to right, whatever the text and the values contain.",
 ["inputs"],"every template text and every variable value",
 "Doctests interpolate one or two simple variables.",
 [ACT],[("interpolate",ACT)])
prop("C34","Job numbers always identify one stopped job",
 "Stopped jobs have distinct positive numbers; a newly stopped job gets one more than the highest in use; bringing a job to the foreground or background by number affects exactly that job, by default the highest, removes it from the list and continues all its processes; an unknown number changes nothing and is reported. This holds for every history of stops and continues.",
 ["histories"],"every sequence of job stops, listings, foreground and background requests",
 "Job control has no tests.",
 ["internal/system/job/job_unix.go","internal/engine/engine.go"],[("Fg, Bg, Stopped, jobs table","internal/system/job/job_unix.go")])
prop("C35","The prompt runs exactly what was typed, once",
 "Each line typed at the interactive prompt is run exactly once, in order, as soon as it completes a command: several commands on a line run in order, an incomplete command gets the prompt for more and runs whole once complete. A syntax error or an interrupt discards what was typed since the last complete command and nothing else; a run-time error ends only its command; asking for completions at any point changes neither what is being entered nor anything the shell remembers. The end of input ends the shell, with every line typed saved in the history in order.",
 ["inputs","histories"],"every sequence of lines, interrupts and requests for completion at the prompt",
 "The interactive shell has no tests.",
 ["main.go","internal/reader/reader.go"],[("repl, completer","main.go"),("Scan","internal/reader/reader.go")])
prop("C36","What the shell is invoked with is what it runs",
 "Invoked with the name of a script, whatever characters are in it, the shell runs that script; invoked with -c, it runs the command given. Either sees the name it was invoked by as $0 and exactly the arguments that follow, whatever they look like, as $1, $2, ... and $@. All commands of the text are run, once, in order, up to the first error or exit; a text with a syntax error, and a command given that is incomplete, run nothing, and if they were given with -c the shell ends with status 1.",
 ["inputs"],"every name, argument list and text",
 "No test invokes the shell other than with a script of a fixed name.",
 ["main.go","internal/system/options/options.go","internal/engine/engine.go","internal/engine/boot/boot.oh"],[("command","main.go"),("Parse","internal/system/options/options.go")])
prop("C37","Importing a file runs it once and gives one object for each module",
 "import runs a file in a scope of its own, from its start to its end, and gives an object with the names it exported; its private names cannot be seen through the object, and nothing is defined for the importer. Once a file that names itself with module has been imported to its end, importing a file that gives the same name yields that same object and runs nothing after the name; a file without a name is run, and gives another object, every time. Files can import others. An error in a file, or in one it imports, is raised once, with its message, where the import is, the rest of the file is not run, no module is kept, and later imports work. Imports at the same time by several tasks each give their own result, as if one were made after the other, and none waits forever.",
 ["programs","histories","interleavings"],"every set of files that import each other, history of imports, and schedule of tasks that import",
 "No test imports a file.",
 [BOOT],[("import service",BOOT),("modules kept by name",BOOT),("source",BOOT)])
prop("C38","Commands put in place of arguments exchange every line and leave nothing",
 "A command with process substitutions is given, in place of each, the name of a file: reading it gives exactly what the substituted command writes, line by line up to its end, and what is written to it is exactly what the substituted command reads. The whole ends only when the command and all substituted commands have ended; its value is that of the command; an error in the command or in a substituted one is raised, with its message; and then no file, open descriptor or waiting task remains of it. Programs and methods can take either part.",
 ["inputs","fault_sequences","interleavings"],"every number and kind of substitutions, lines, failures and schedules, where the command opens each file it is given",
 "No test uses a process substitution.",
 [BOOT,"internal/engine/commands/file.go","internal/common/type/pipe/pipe.go"],[("process-substitution",BOOT),("temp-fifo","internal/engine/commands/file.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
