COMMON = ["the SSA interpreter and its models of fmt, math/big (as SMT integers and reals), sync, os are faithful to Go; sampled passing paths are replayed on the compiled code",
          "z3 is sound"]
MT = {"mustTerminate": 1}
NOTE = "Every path of the encoded functions within the stated bounds is decided by the solver; nothing is claimed beyond them."

P("C01", "every text of up to 3 bytes (thorough 4), and texts of up to 4 or 5 characters (thorough 6) over alphabets of 5 to 9 characters for operators, quoting, continuation and comments, references, words, lines and UTF-8",
  "longer texts", NOTE,
  R("hread.Lex", "the tokens of every text are those of an independent statement of the rules", {"n": 3}, {"n": 4}, ["lex"], opts=MT),
  R("hread.Lex", "quoting", {"n": 5, "set": 2}, {"n": 6, "set": 2}, ["lex"], opts=MT),
  R("hread.Lex", "continuation and comments", {"n": 5, "set": 3}, {"n": 7, "set": 3}, ["lex"], opts=MT),
  R("hread.Lex", "references and braces", {"n": 4, "set": 4}, {"n": 5, "set": 4}, ["lex"], opts=MT),
  R("hread.Lex", "words", {"n": 4, "set": 5}, {"n": 6, "set": 5}, ["lex"], opts=MT),
  R("hread.Lex", "lines", {"n": 5, "set": 6}, {"n": 7, "set": 6}, ["lex"], opts=MT),
  R("hread.Lex", "operators", {"n": 4, "set": 1}, {"n": 5, "set": 1}, ["lex"], opts=MT),
  assumptions=COMMON)

P("C02", "texts of up to 3 bytes, and of up to 4 or 5 characters over alphabets chosen for operators, quoting, comments, continuation, brackets and sequences, divided at up to 2 places, drained or not after each piece",
  "longer texts, more pieces", NOTE,
  R("hread.Pieces", "tokens do not depend on where the text is divided", {"n": 2, "one": 1}, {"n": 3}, ["pieces"], opts=MT),
  R("hread.Pieces", "the same, for operators", {"n": 4, "set": 1, "cuts": 1}, {"n": 4, "set": 1, "one": 1}, ["pieces"], opts=MT),
  R("hread.Pieces", "the same, for quoting", {"n": 5, "set": 2, "cuts": 1}, {"n": 5, "set": 2}, ["pieces"], opts=MT),
  R("hread.Pieces", "the same, for continuation and comments", {"n": 5, "set": 3, "cuts": 1}, {"n": 6, "set": 3, "cuts": 1}, ["pieces"], opts=MT),
  R("hread.Pieces", "the same, taking some tokens between pieces", {"n": 3, "set": 5, "one": 1}, {"n": 4, "set": 5, "one": 1}, ["pieces"], opts=MT),
  R("hread.Reader", "each piece yields exactly the commands it completes", {"n": 2, "cuts": 2}, {"n": 3, "cuts": 2}, ["command", "waits", "error"], opts=MT),
  R("hread.Reader", "the same, for sequences", {"n": 4, "cuts": 2, "set": 9}, {"n": 5, "cuts": 2, "set": 9}, ["command", "waits", "error"], opts=MT),
  R("hread.Reader", "the same, for brackets", {"n": 4, "cuts": 1, "set": 10}, {"n": 6, "cuts": 1, "set": 10}, ["command", "waits", "error"], opts=MT),
  R("hread.Reader", "the same, for quoting", {"n": 4, "cuts": 1, "set": 11}, {"n": 5, "cuts": 2, "set": 11}, ["command", "waits", "error"], opts=MT),
  R("hread.Reader", "the same, for continuation, comments and redirection", {"n": 4, "cuts": 1, "set": 12}, {"n": 6, "cuts": 1, "set": 12}, ["command", "waits", "error"], opts=MT),
  assumptions=COMMON)

P("C03", "texts of up to 2 bytes (thorough 3), and of up to 4 or 5 characters over alphabets with line breaks, quotes, comments, continuation and UTF-8, fed line by line or at once; traces of an error two calls deep in 49 surroundings with other text before it in 4 places",
  "longer texts; the line of a word that ends with an escaped line break", NOTE,
  R("hread.Places", "source, line, column and line text of every token", {"n": 2}, {"n": 3}, ["places", "column", "once"], opts=MT),
  R("hread.Places", "the same, for quotes, comments and continuation", {"n": 5, "set": 6}, {"n": 7, "set": 6}, ["places", "column", "once"], opts=MT),
  R("hread.Places", "the same, for quoted strings over lines", {"n": 6, "set": 8}, {"n": 8, "set": 8}, ["places", "column", "once"], opts=MT),
  R("hread.Places", "the same, for UTF-8", {"n": 4, "set": 7}, {"n": 6, "set": 7}, ["places", "column", "once"], opts=MT),
  R("hread.Places", "the same, for operators and comments", {"n": 5, "set": 3}, {"n": 6, "set": 3}, ["places", "column", "once"], opts=MT),
  R("hread.Parse", "every word and operator of a command keeps the place of its token", {"n": 3, "places": 1}, {"n": 4, "assign": 1, "places": 1}, ["place"], opts=MT),
  R("heng.Traces", "the trace of an error leads from the outermost command through the callers to the command that failed, and quotes their lines", None, {"all": 1}, ["trace"]),
  assumptions=COMMON)

P("C04", "every sequence of up to 3 tokens (thorough 4) that the lexer can produce, and up to 5 to 7 tokens over vocabularies of 7 or 8 classes; names of meta commands excluded",
  "longer sequences; brace groups that start a command or follow a block; targets of process substitution that are no parenthesised command", NOTE,
  R("hread.Parse", "the commands of every token sequence are those of an independent grammar; other sequences are errors or wait", {"n": 3}, {"n": 4, "assign": 1}, ["commands", "error", "waits", "vague"], opts=MT),
  R("hread.Parse", "the same, for operators and assignments", {"n": 6, "set": 1, "assign": 1}, {"n": 8, "set": 1, "assign": 1}, ["commands", "error", "waits"], opts=MT),
  R("hread.Parse", "the same, for elements", {"n": 6, "set": 2, "assign": 1}, {"n": 7, "set": 2, "assign": 1}, ["commands", "error", "waits"], opts=MT),
  R("hread.Parse", "the same, for blocks", {"n": 6, "set": 3, "assign": 1}, {"n": 8, "set": 3}, ["commands", "error", "waits"], opts=MT),
  R("hread.Parse", "the same, for redirection, pipes and substitution", {"n": 7, "set": 4}, {"n": 9, "set": 4}, ["commands", "error", "waits"], opts=MT),
  assumptions=COMMON)

P("C05", "strings of up to 2 arbitrary bytes, symbols of up to 2 characters, 5 numbers and statuses, pairs of them nested once (thorough: strings of 3 bytes), and pairs of strings nested 3 times; commands of up to 4 (thorough 5 or 6) characters over 8 alphabets, alone and in 5 contexts",
  "longer strings and symbols; texts of other numbers; symbols that are no single word (see the known finding) and those made by meta commands", NOTE,
  R("hread.Literals", "strings, symbols, numbers, statuses and lists", {"n": 2, "depth": 0}, {"n": 3, "depth": 0}, ["value"], opts=MT),
  R("hread.Literals", "pairs of them", {"n": 1, "depth": 1}, {"n": 2, "depth": 1}, ["value", "list"], opts=MT),
  R("hread.Literals", "nested pairs", {"shape": 1, "depth": 3}, {"shape": 1, "depth": 3}, ["value", "list"], opts=MT),
  R("hread.Joined", "symbols written as several words", {"n": 2}, {"n": 2}, ["joined"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 1, "wrap": 0}, {"n": 5, "set": 1, "wrap": 0}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 4, "wrap": 0}, {"n": 5, "set": 4, "wrap": 0}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 5, "wrap": 0}, {"n": 5, "set": 5, "wrap": 0}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 9, "wrap": 0}, {"n": 5, "set": 9, "wrap": 0}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 5, "set": 10, "wrap": 0}, {"n": 6, "set": 10, "wrap": 0}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 11, "wrap": 0}, {"n": 5, "set": 11, "wrap": 0}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 12, "wrap": 0}, {"n": 5, "set": 12, "wrap": 0}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 4, "wrap": 1}, {"n": 5, "set": 4, "wrap": 1}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 4, "wrap": 2}, {"n": 5, "set": 4, "wrap": 2}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 10, "wrap": 3}, {"n": 5, "set": 10, "wrap": 3}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 4, "wrap": 4}, {"n": 5, "set": 4, "wrap": 4}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 4, "set": 1, "wrap": 5}, {"n": 5, "set": 1, "wrap": 5}, ["command"], opts=MT),
  R("hread.Reread", "commands that were read", {"n": 2, "set": 0, "wrap": 0}, {"n": 3, "set": 0, "wrap": 0}, ["command"], opts=MT),
  assumptions=COMMON)

P("C06", "texts of up to 3 characters (thorough 4) typed over several alphabets, analysed after any prefix of another text of up to 3 characters; command lines of up to 2 words (thorough 3) in 11 contexts",
  "longer texts; the words after the end of a block", NOTE,
  R("hread.Complete", "an analysis of a copy leaves the reader as it was and starts where it is", {"n": 2, "m": 1}, {"n": 2, "m": 2}, ["command", "error", "token"], opts=MT),
  R("hread.Complete", "the same, for sequences", {"n": 3, "m": 3, "set": 9}, {"n": 4, "m": 3, "set": 9}, ["command", "error", "token"], opts=MT),
  R("hread.Complete", "the same, for brackets", {"n": 3, "m": 2, "set": 10}, {"n": 4, "m": 3, "set": 10}, ["command", "error", "token"], opts=MT),
  R("hread.Complete", "the same, for quoting", {"n": 3, "m": 2, "set": 2}, {"n": 3, "m": 3, "set": 2}, ["command", "error", "token"], opts=MT),
  R("hread.Complete", "the same, for continuation", {"n": 3, "m": 2, "set": 12}, {"n": 3, "m": 3, "set": 12}, ["command", "error", "token"], opts=MT),
  R("hread.Typed", "the words typed so far", {"n": 2}, {"n": 3}, ["typed"], opts=MT),
  assumptions=COMMON)

P("C07", "every pair of values of 9 kinds, symbols and strings of at most 1 arbitrary byte, numbers and statuses arbitrary rationals, pairs nested once (strings and lists: twice); lists of up to 4 arbitrary one-byte strings; chains of up to 3 values",
  "longer texts, deeper nesting, cyclic lists; identity of closures and conduits other than channels", NOTE,
  R("hcore.EqualPair", "Equal agrees with structural equality on every two values, is symmetric and reflexive, and changes nothing", {"len": 1, "depth": 1}, {"len": 2, "depth": 1}, ["equal", "different"]),
  R("hcore.EqualDeep", "the same on nested pairs of strings", {"depth": 2}, {"depth": 2}, ["deep"]),
  R("hcore.EqualLists", "lists are equal exactly when they have equal length and elements", {"n": 4}, {"n": 7}, ["lists"]),
  R("hcore.EqualChain", "equal? on n values", {"n": 3}, {"n": 4}, ["chain"]),
  assumptions=COMMON)

P("C08", "every value of 9 kinds (numbers and statuses arbitrary rationals, text of at most 1 arbitrary byte, pairs nested once)",
  "longer texts", NOTE,
  R("hcore.Truth", "boolean.Value, bool and not agree with the truth table on every value", None, {"len": 2}, ["true", "false"]),
  R("heng.Conditionals", "if, while, and, or, not, bool and the exit status of the shell agree on one value", None, None, ["true", "false"]),
  R("hcore.Predicates", "every command with a truth value answers true or () only, and type predicates are right", None, None, ["predicate", "other"]),
  assumptions=COMMON)

P("C09", "0 to 3 operands (quick) or 4 (thorough): arbitrary rationals as numbers or statuses, decimal symbols, and every kind of value that is no number",
  "more operands; the text of numbers is concrete", NOTE,
  R("hcore.Arith", "results are exact, fresh and repeatable, operands unchanged, errors exactly on invalid operands", {"n": 3, "wide": 2}, {"n": 4, "wide": 3}, ["add", "add error", "sub", "sub error", "mul", "mul error", "div", "div error", "mod", "mod error"]),
  assumptions=COMMON)

P("C10", "0 to 4 operands (quick) or 5 (thorough): arbitrary rationals as numbers or statuses, decimal symbols, values that are no number",
  "more operands", NOTE,
  R("hcore.Order", "each comparison holds exactly when every neighbouring pair does", {"n": 4, "wide": 2}, {"n": 5, "wide": 3}, [f"{o} {k}" for o in ("lt?", "le?", "gt?", "ge?") for k in ("true", "false", "error")] + ["few"]),
  assumptions=COMMON)

P("C11", "lists of 0 to 4 (thorough 6) elements, every 64-bit index and bound, integers outside 64 bits, indices given as numbers or symbols",
  "longer lists", NOTE,
  R("hcore.ListGet", "get", {"n": 4}, {"n": 7}, ["get", "default", "range"]),
  R("hcore.ListSlice", "slice", {"n": 4}, {"n": 6}, ["slice", "bad bounds", "huge"]),
  R("hcore.ListWhole", "length, head, tail, reverse, invalid arguments", {"n": 6}, {"n": 20}, ["whole", "head"]),
  assumptions=COMMON)

P("C12", "lists of 0 to 4 elements, update applied at every cell, arguments including the list itself and its tails",
  "longer lists; improper or cyclic lists", NOTE,
  R("hcore.ListAppend", "append", {"n": 4}, {"n": 8}, ["append"]),
  R("hcore.ListExtend", "extend", {"n": 3}, {"n": 6}, ["extend", "self", "empty"], opts={"mustTerminate": 1, "maxSteps": 400000}),
  R("hcore.ListSet", "set-head and set-tail", {"n": 4}, {"n": 8}, ["head", "tail"]),
  R("hcore.ListEmpty", "no update changes the shared empty list", None, None, ["empty"]),
  assumptions=COMMON)

P("C13", "texts of 0 to 4 arbitrary bytes, separators, prefixes and replaced texts of up to 2 bytes, every 64-bit bound; case mapping on ASCII and sample non-ASCII letters",
  "longer texts; case mapping of all non-ASCII letters", NOTE,
  R("hcore.StrSlice", "length and slice", {"n": 4}, {"n": 7}, ["slice", "bad bounds", "huge"]),
  R("hcore.StrTrim", "trim-prefix and trim-suffix", {"n": 4, "m": 2}, {"n": 6, "m": 4}, ["prefix", "suffix"]),
  R("hcore.StrReplace", "replace", {"n": 3, "m": 2}, {"n": 5, "m": 2}, ["replace"]),
  R("hcore.StrCase", "upper and lower", {"n": 3}, {"n": 4}, ["case"]),
  R("hcore.StrArgs", "argument counts and kinds", None, None, ["args"]),
  R("hcore.SplitJoin", "splitting and joining", {"n": 4, "m": 2}, {"n": 6, "m": 2}, ["split"]),
  R("hcore.Join", "joining", {"n": 3}, {"n": 4}, ["join"]),
  assumptions=COMMON)

P("C14", "2 nested scopes with up to 3 operations, and 3 with up to 2 (thorough: 3 scopes, up to 4 operations): define, export, set, unset, copy on any scope with any names, then a lookup of any name in every scope through get, set? and resolve",
  "more scopes or operations; names are one letter", NOTE,
  R("heng.Scopes", "define, export, set, unset, copy, then lookups", {"scopes": 2, "steps": 3}, {"scopes": 2, "steps": 4}, ["clone", "set", "set error", "unset", "defined", "undefined"]),
  R("heng.Scopes", "the same in three nested scopes", {"scopes": 3, "steps": 2}, {"scopes": 3, "steps": 3}, ["clone", "set", "set error", "defined", "undefined"]),
  assumptions=COMMON)

P("C15", "an object and its enclosing scope with any subset of one private and one public name each, one operation of ten kinds through the object or a copy of it, with any name",
  "sequences of operations", NOTE,
  R("heng.Objects", "nothing private is found, changed, removed or revealed through an object", None, None, ["get", "set?", "unset", "set", "export", "define", "resolve", "resolves?", "eval", "interpolate", "copy"]),
  assumptions=COMMON)

P("C16", "chains of 1 or 2 (thorough 3) method calls, closures in separate or nested scopes, each level with any subset of a private, an exported and a local name; any names",
  "longer chains; exports made in a caller's scope while the callee runs", NOTE,
  R("heng.Callers", "what a callee sees and the environment given to external commands", {"depth": 2}, {"depth": 3, "block": 1}, ["some", "none", "environment"]),
  assumptions=COMMON)

P("C17", "one to three commands per block, control structures nested to depth 2 (thorough 3), every outcome of every condition, every placement among if, else, else if, while, and, or, block",
  "deeper nesting", NOTE,
  R("heng.Control", "exactly the commands selected run, in order, and the value is the one selected", {"depth": 2, "limit": 8}, {"depth": 3, "simple": 1}, ["control", "value"]),
  assumptions=COMMON)

P("C18", "parameter lists of up to 2 names, plain or with self, rest and environment, called with up to 2 or 3 (thorough 3) arguments of every form, splices included; return from up to 2 levels of blocks, loops and calls",
  "longer lists", NOTE,
  R("heng.Arguments", "arguments are evaluated once, in order, and bound as declared; wrong counts run nothing", {"args": 2}, {"args": 3}, ["call", "environment", "error", "self"]),
  R("heng.Arguments", "the same, for plain arguments", {"plain": 1, "args": 3}, {"plain": 1, "args": 4}, ["call", "error"]),
  R("heng.Returns", "return leaves exactly its call, with its value", {"depth": 2}, {"depth": 2}, ["return"]),
  assumptions=COMMON)

P("C19", "chains of up to 2 calls with handlers placed anywhere (several per method, in blocks, set before or after the calls, in blocks that have ended), handlers that return, pass on, throw or fail, and 2 (with one level: all) ways of failing",
  "deeper chains; handlers installed other than by catch", NOTE,
  R("heng.Unwind", "every way to fail, one call deep", {"faults": 1, "levels": 1}, {"faults": 1, "levels": 1}, ["caught", "uncaught"]),
  R("heng.Unwind", "an error goes to the nearest handler, which runs once, and evaluation goes on after its method", {"levels": 2, "kinds": 1}, {"levels": 2, "faults": 1}, ["caught", "uncaught", "recovered"]),
  R("heng.Uncaught", "an error without a handler is reported and ends the command", None, None, ["uncaught"]),
  R("heng.Outlived", "a handler does not outlive its method", None, None, ["outlived"]),
  assumptions=COMMON)

P("C31", "integers of any size, fractions, other values; scripts that end, fail or exit",
  "exits while other tasks run", NOTE,
  R("heng.Exits", "exit ends the program with the status its argument asks for", None, None, ["exit", "fraction", "integer"]),
  R("heng.Script", "a script ends with the status of its last command, at an exit, or at an uncaught error", None, None, ["end", "error", "exit"]),
  assumptions=COMMON)

P("C33", "texts of up to 2 arbitrary bytes (thorough 3), and of up to 4 characters over alphabets for references, what ends them, quoting and names; values of 6 kinds, strings of up to 2 arbitrary bytes among them",
  "longer texts; names the shell itself defines; ${} followed by }", NOTE,
  R("heng.Interpolate", "exactly the references are replaced, once", {"n": 2}, {"n": 3}, ["text", "unknown"], opts=MT),
  R("heng.Interpolate", "braces", {"n": 4, "set": 1, "v": 0}, {"n": 5, "set": 1, "v": 0}, ["text", "unknown"], opts=MT),
  R("heng.Interpolate", "what ends a reference", {"n": 3, "set": 2, "v": 0}, {"n": 4, "set": 2, "v": 0}, ["text", "unknown"], opts=MT),
  R("heng.Interpolate", "double-quoted strings", {"n": 3, "set": 3, "v": 0, "quoted": 1}, {"n": 4, "set": 3, "v": 0, "quoted": 1}, ["text", "unknown"], opts=MT),
  R("heng.Interpolate", "names", {"n": 3, "set": 4, "v": 0}, {"n": 4, "set": 4, "v": 0}, ["text", "unknown"], opts=MT),
  assumptions=COMMON)

P("C27", "sequences of up to 2 (thorough 3) changes of directory, each of 22 kinds, as a string or a symbol, with or without HOME, with any of them made to fail",
  "other paths; changes by other tasks; unset PWD or OLDPWD", NOTE,
  R("heng.Dirs", "cd answers true or false, and PWD and OLDPWD match the directory", {"steps": 2}, {"steps": 3}, ["changed", "failed", "home"]),
  R("heng.Dirs", "the same for every path of up to 4 of the characters a, b, l, /, . and -", {"steps": 1, "text": 4}, {"steps": 2, "text": 3}, ["changed", "failed", "home"]),
  R("heng.Dirs", "the same with faults, and external commands start in the directory", {"steps": 2, "commands": 1}, {"steps": 2, "commands": 1}, ["changed", "failed", "home", "command"], native=False),
  R("heng.Dirs", "the same for directories named as commands", {"steps": 2, "commands": 1, "named": 1}, {"steps": 2, "commands": 1, "named": 1}, ["changed", "failed", "home", "command"], native=False),
  R("heng.DirScopes", "the variables match the directory after the scope that changed it ends", None, None, ["scope"]),
  assumptions=COMMON + ["the model of the file system"])

P("C28", "patterns of up to 3 to 5 characters and names of up to 1 to 4 (by run), over alphabets with every special character; file names generated for patterns of up to 3 (thorough 4) characters in a directory of 7 entries on two levels, relative, absolute and from a directory below, as symbols and strings",
  "longer patterns and names; characters outside ASCII; patterns with empty, . or .. parts or with backslashes in directory parts", NOTE,
  R("heng.Match", "match agrees with the pattern language", {"p": 3, "n": 2}, {"p": 4, "n": 3}, ["malformed", "match", "different"], opts=MT),
  R("heng.Match", "the same, for runs", {"p": 4, "n": 3, "set": 1}, {"p": 5, "n": 4, "set": 1}, ["match", "different"], opts=MT),
  R("heng.Match", "the same, for sets", {"p": 5, "n": 1, "set": 2}, {"p": 6, "n": 2, "set": 2}, ["malformed", "match", "different"], opts=MT),
  R("heng.Match", "the same, for several runs", {"p": 4, "n": 4, "set": 3}, {"p": 5, "n": 5, "set": 3}, ["match", "different"], opts=MT),
  R("heng.Match", "the same, for other names", {"p": 3, "n": 2, "any": 1}, {"p": 3, "n": 3, "any": 1}, ["malformed", "match", "different"], opts=MT),
  R("heng.Names", "the file names generated", {"p": 3}, {"p": 4}, ["beside", "names", "none", "plain"], opts=MT),
  R("heng.Names", "the same, below a directory", {"p": 4, "set": 1}, {"p": 5, "set": 1}, ["beside", "names", "none", "plain"], opts=MT),
  R("heng.Names", "the same, for sets", {"p": 3, "set": 2}, {"p": 4, "set": 2}, ["beside", "names", "none", "plain"], opts=MT),
  assumptions=COMMON + ["the model of the file system"])

P("C20", "commands named in 4 ways, with 1 or 2 (thorough 3) arguments of 8 kinds: quoted strings, variables, splices and results of up to 2 or 3 arbitrary bytes without NUL, words of up to 3 or 4 characters over alphabets with patterns, directories, tilde and bytes at large, numbers, lists, methods",
  "longer arguments; what ~name stands for; words with empty, . or .. parts or with backslashes in directory parts", NOTE,
  R("heng.Argv", "every kind of argument", {"args": 1, "n": 2}, {"args": 1, "n": 3}, ["error", "run"], opts=MT, native=False),
  R("heng.Argv", "several arguments", {"args": 2, "n": 1}, {"args": 3, "n": 1, "kinds": 5}, ["error", "run"], opts=MT, native=False),
  R("heng.Argv", "words with pattern characters", {"args": 1, "n": 3, "set": 1}, {"args": 1, "n": 4, "set": 1}, ["error", "run"], opts=MT, native=False),
  R("heng.Argv", "words of arbitrary bytes, and texts of up to 3 arbitrary bytes", {"args": 1, "n": 3, "set": 0}, {"args": 1, "n": 4, "set": 0}, ["error", "run", "tilde"], opts=MT, native=False),
  R("heng.Argv", "words with a tilde", {"args": 1, "n": 4, "set": 2}, {"args": 1, "n": 5, "set": 2}, ["error", "run", "tilde"], opts=MT, native=False),
  R("heng.Argv", "words with other special characters", {"args": 1, "n": 3, "set": 3}, {"args": 1, "n": 4, "set": 3}, ["error", "run"], opts=MT, native=False),
  assumptions=COMMON + ["the models of the file system and of starting processes"])

RD = {"mustTerminate": 1, "maxSteps": 20000000}
P("C21", "all 7 forms of redirection to and from files named by strings, words, variables holding either, results of commands and conduits, with names of up to 1 to 3 (thorough 2 to 4) characters over 5 alphabets for patterns, tildes, links, devices, blanks and directories, for commands that succeed, fail, throw, redirect again, or return; opening and writing made to fail",
  "longer names; names that begin with a slash or hold . or .. parts; input from a file named -i; what ~name stands for; symbolic links to other directories", NOTE,
  R("heng.Redirect", "every form, every way to name the file", {"n": 1}, {"n": 2}, ["append", "clobber", "error", "fails", "input", "new"], opts=RD),
  R("heng.Redirect", "redirecting again, throwing and returning inside", {"n": 1, "nested": 1, "hows": 1}, {"n": 1, "nested": 1}, ["append", "clobber", "error", "fails", "input", "new"], opts=RD),
  R("heng.Redirect", "conduits", {"n": 0, "nested": 1}, {"n": 0, "nested": 1}, ["append", "error", "fails", "input"], opts=RD),
  R("heng.Redirect", "links and devices", {"n": 2, "set": 2, "hows": 3}, {"n": 2, "set": 2}, ["append", "clobber", "device", "error", "fails", "input", "new"], opts=RD),
  R("heng.Redirect", "sets and tildes", {"n": 2, "set": 1, "hows": 2}, {"n": 3, "set": 1, "hows": 2}, ["append", "clobber", "error", "fails", "input", "new"], opts=RD),
  R("heng.Redirect", "patterns", {"n": 2, "set": 0, "hows": 2}, {"n": 4, "set": 0, "hows": 2}, ["append", "clobber", "error", "fails", "input", "new"], opts=RD),
  R("heng.Redirect", "files with any permissions", {"n": 1, "hows": 1, "modes": 1}, {"n": 2, "modes": 1, "hows": 2}, ["append", "clobber", "error", "fails", "input", "new"], opts=RD),
  R("heng.Redirect", "directories", {"n": 3, "set": 4, "hows": 2}, {"n": 4, "set": 4, "hows": 2}, ["append", "clobber", "error", "fails", "input", "new"], opts=RD),
  R("heng.Redirect", "opening or writing fails", {"n": 1, "hows": 1, "faults": 1}, {"n": 1, "faults": 1}, ["append", "clobber", "error", "fails", "fault", "input", "new"], opts=RD, native=False),
  assumptions=COMMON + ["the model of the file system"])

P("C26", "14 ways to repeat (loops, nested loops, tail calls of methods, methods of objects, syntaxes, mutual calls, calls through if, else if, else and block, with conditions that take every value) of each of 77 commands, for 6 repetitions; the space is the size of everything reachable from the task",
  "recursion from a scope in which variables are exported (their values are those of the callers: dynamic scope); more than 6 repetitions", NOTE,
  R("heng.Loops", "the space reachable from the task does not grow from one repetition to another", None, {"times": 9}, ["loop"], opts=RD),
  R("heng.Results", "a command leaves one result", None, None, ["result"], opts=RD),
  R("heng.Loops", "the same for commands that start jobs and processes", {"started": 1, "times": 5}, {"started": 1, "times": 8}, ["loop"], opts={"mustTerminate": 1, "maxSteps": 40000000}, native=False),
  assumptions=COMMON + ["the models of the file system and of starting processes"])

JOBS = ["end", "key", "stop", "continue", "resume", "unknown"]
P("C30", "histories of up to 4 events on up to 4 processes of up to 2 jobs of 5 shapes (single commands, pipelines, tasks and their children, sequences), with every exit status, every signal and core dumps; two events of one job between two looks of the shell",
  "longer histories; more jobs; wait statuses that report neither an end, a stop nor a continuation", NOTE,
  R("heng.Jobs", "every exit status and signal", {"steps": 3, "statuses": 1, "jobs": 2}, {"steps": 4, "statuses": 1, "jobs": 2}, JOBS, opts=RD, native=False),
  R("heng.Jobs", "several events at once", {"steps": 4, "jobs": 1, "together": 1}, {"steps": 5, "jobs": 1, "together": 1}, JOBS + ["together"], opts=RD, native=False),
  assumptions=COMMON + ["the models of the file system, of processes and of signals: wait reports the latest change of a process only"])

P("C34", "histories of up to 4 (thorough 5) events on jobs of 5 shapes, of up to 5 (thorough 6) on 3 jobs of one process, and of up to 4 (thorough 5) when 3 jobs are stopped already: ends, stops and continuations of single processes, stopping from the keyboard, new commands, fg and bg with and without numbers up to 4",
  "longer histories; more jobs; jobs blocked in builtin commands that read; fg and bg inside other commands", NOTE,
  R("heng.Jobs", "jobs of all shapes", {"steps": 4}, {"steps": 5, "numbers": 2}, JOBS, opts=RD, native=False),
  R("heng.Jobs", "several jobs", {"steps": 5, "jobs": 3, "kinds": 1, "killed": 0}, {"steps": 6, "jobs": 3, "kinds": 1, "killed": 0}, JOBS, opts=RD, native=False),
  R("heng.Jobs", "when jobs have stopped already", {"steps": 4, "jobs": 4, "stopped": 3, "kinds": 1, "killed": 0, "numbers": 4}, {"steps": 5, "jobs": 5, "stopped": 3, "kinds": 1, "killed": 0, "numbers": 5}, JOBS, opts=RD, native=False),
  assumptions=COMMON + ["the models of the file system, of processes and of signals: wait reports the latest change of a process only"])

CC = {"mustTerminate": 1, "explore": 1, "preempt": 1, "race": 1}
CC0 = {"mustTerminate": 1, "explore": 1, "preempt": 0, "race": 1}
CC2 = {"mustTerminate": 1, "explore": 1, "preempt": 2, "race": 1}
P("C23", "one task: sequences of up to 5 writes, reads and closes of every form on channels and pipes; records of up to 2 elements of up to 2 (thorough 3) arbitrary bytes, lists, numbers and symbols. Several tasks: every schedule with up to 1 (thorough 2) preemptions of 2 writers of up to 2 records and up to 2 readers, channels of capacity 0, 1 and 2, pipes that hold 5 or 100 bytes; 3 tasks that close, read and write a pipe",
  "longer records and sequences; records that are empty lists or have newlines in a line; more tasks, more preemptions; system calls that are interrupted", NOTE,
  R("hcore.Conduit", "a channel is a queue of records", {"pipe": 0, "steps": 4, "n": 1, "plain": 1}, {"pipe": 0, "steps": 5, "n": 1, "plain": 1}, ["close", "end", "line", "value"], opts=MT),
  R("hcore.Conduit", "a pipe is a queue of records", {"pipe": 1, "steps": 4, "n": 1, "plain": 1}, {"pipe": 1, "steps": 5, "n": 1, "plain": 1}, ["close", "closed", "end", "line", "value"], opts=MT),
  R("hcore.Conduit", "values through a channel", {"pipe": 0, "pairs": 1, "steps": 2, "n": 1, "depth": 1}, {"pipe": 0, "pairs": 1, "steps": 2, "n": 2, "depth": 1}, ["line", "value"], opts=MT),
  R("hcore.Conduit", "values through a pipe", {"pipe": 1, "pairs": 1, "steps": 2, "n": 2}, {"pipe": 1, "pairs": 1, "steps": 2, "n": 3}, ["line", "value"], opts=MT),
  R("hcore.Conduit", "lists through a pipe", {"pipe": 1, "pairs": 1, "steps": 2, "n": 1, "depth": 1}, {"pipe": 1, "pairs": 1, "steps": 2, "n": 1, "depth": 2}, ["line", "value"], opts=MT),
  R("hcore.Conduit", "several values through a pipe", {"pipe": 1, "pairs": 1, "steps": 2, "n": 1, "two": 1}, {"pipe": 1, "pairs": 1, "steps": 2, "n": 2, "two": 1}, ["line", "value"], opts=MT),
  R("hcore.Crowd", "several tasks and a channel without room", {"n": 1, "readers": 2}, {"n": 1, "readers": 2}, ["delivered"], opts=CC),
  R("hcore.Crowd", "several tasks and a channel with room for one", {"n": 1, "readers": 2, "cap": 1}, {"n": 1, "readers": 2, "cap": 1}, ["delivered"], opts=CC),
  R("hcore.Crowd", "several tasks and a channel with room for two", {"n": 1, "readers": 2, "cap": 2}, {"n": 1, "readers": 2, "cap": 2}, ["delivered"], opts=CC),
  R("hcore.Crowd", "lines through a full pipe", {"n": 1, "pipe": 1, "readers": 2, "cap": 5, "lines": 1}, {"n": 1, "pipe": 1, "readers": 2, "cap": 5, "lines": 1}, ["delivered"], opts=CC),
  R("hcore.Crowd", "lines through a pipe", {"n": 1, "pipe": 1, "readers": 2, "cap": 100, "lines": 1}, {"n": 1, "pipe": 1, "readers": 2, "cap": 100, "lines": 1}, ["delivered"], opts=CC),
  R("hcore.Crowd", "values through a full pipe", {"pipe": 1, "readers": 1, "cap": 5, "each": 1}, {"pipe": 1, "readers": 2, "cap": 5, "each": 1}, ["delivered"], opts=CC),
  R("hcore.Crowd", "values through a full pipe", {"n": 1, "pipe": 1, "readers": 1, "cap": 5, "each": 1}, {"n": 1, "pipe": 1, "readers": 1, "cap": 5, "each": 1}, ["delivered"], opts=CC0),
  R("hcore.Crowd", "several values through a full pipe", {"pipe": 1, "readers": 1, "cap": 5}, {"pipe": 1, "readers": 2, "cap": 5}, ["delivered"], opts=CC0),
  R("hcore.Closing", "closing the ends of a pipe while it is used", {"tasks": 3, "again": 1}, {"tasks": 3, "again": 1}, ["closed"], opts=CC),
  assumptions=COMMON + ["the model of pipes"])

TG = {"mustTerminate": 1, "delay": 0, "preempt": 0, "race": 1, "maxSteps": 20000000}
TG1 = dict(TG, delay=1)
TGP = dict(TG, preempt=1)
P("C32", "2 or 3 tasks doing 1 or 2 of 9 operations each on variables of one scope, its object and its enclosing scope, with every choice of 4 variables or arbitrary one-byte names, under every schedule with up to 1 or 2 preemptions, with race detection; 2 or 3 tasks making up to 2 symbols of an arbitrary byte each; every pair of 27 commands that use shared variables, methods, syntaxes, objects, maps, conduits, children and processes, evaluated by two tasks",
  "more tasks, operations and preemptions; pairs (lists) changed by several tasks at once; continuations called by another task; the pairs of commands are run with up to 1 delay of the default schedule (thorough: 2, or 1 preemption for some pairs)", NOTE,
  R("hcore.Shared", "single operations on a scope", {"each": 1}, {"each": 1}, ["kept", "own", "read"], opts=dict(CC2)),
  R("hcore.Shared", "sequences of operations", {"each": 2, "ops": 5, "vars": 2}, {"each": 2, "ops": 9, "vars": 2}, ["kept", "own", "read"], opts=CC),
  R("hcore.Shared", "copies of a scope", {"each": 2, "ops": 6, "vars": 1}, {"each": 2, "ops": 6, "vars": 2}, ["kept", "own", "read"], opts=CC),
  R("hcore.Shared", "three tasks", {"each": 1, "tasks": 3, "vars": 2}, {"each": 1, "tasks": 3, "vars": 4}, ["kept", "own", "read"], opts=CC0),
  R("hcore.Shared", "objects", {"each": 1, "object": 1}, {"each": 2, "ops": 6, "vars": 2, "object": 1}, ["kept", "own", "read"], opts=CC),
  R("hcore.Shared", "arbitrary names", {"each": 1, "names": 1}, {"each": 1, "names": 1}, ["own", "read"], opts=CC),
  R("hcore.Symbols", "making symbols", {"each": 2}, {"each": 2, "tasks": 3}, ["made"], opts=CC2),
  R("hcore.Symbols", "making longer symbols", {"each": 1, "n": 4}, {"each": 2, "n": 4}, ["made"], opts=CC),
  R("heng.Together", "every pair of commands", None, None, ["done"], opts=TG, native=False),
  R("heng.Together", "every pair of the first commands in other orders", {"commands": 12}, None, ["done"], opts=TG1, native=False),
  R("heng.Together", "setting a variable in any schedule", None, {"pair": 0, "commands": 1}, ["done"], opts=TGP, native=False, tier="thorough"),
  R("heng.Together", "calling a method in any schedule", None, {"pair": 606}, ["done"], opts=TGP, native=False, tier="thorough"),
  assumptions=COMMON)

HX = {"mustTerminate": 1, "explore": 1, "preempt": 1, "hold": 1, "delay": 0, "race": 1, "maxSteps": 20000000}
HX1 = dict(HX, delay=1)
HX2 = dict(HX, preempt=2)
D0 = dict(HX, preempt=0, hold=0)
D1 = dict(D0, delay=1)
D2 = dict(D0, delay=2)
D3 = dict(D0, delay=3)
HALT = ["interrupted", "notified", "over", "stopped", "waiting"]
KEYS = ["done", "interrupted", "over", "stopped"]
PL = ["error", "lines"]
P("C22", "pipelines of up to 3 (thorough 4) stages, and captures of them, of methods or programs, the first writing up to 2 lines of up to one arbitrary byte, the others reading all lines, one or none, and passing them on; one stage, or several, raising an error at its end; buffers of up to 3 bytes between; under every schedule that differs from round-robin by up to 1 (thorough 2) delays, or (thorough) by one preemption; with race detection",
  "longer lines and pipelines; more preemptions; programs that are killed by SIGPIPE; stages that are stopped", NOTE,
  R("heng.Pipes", "what flows through pipelines and captures", {"stages": 2, "capture": 1, "modes": 2}, {"stages": 2, "capture": 1}, ["captured", "error", "lines", "program", "status"], opts=D0, native=False),
  R("heng.Pipes", "stages that stop reading", {"stages": 2, "capture": 1, "lines": 1, "cap": 1}, {"stages": 3, "capture": 1, "lines": 1, "cap": 1}, ["broken", "captured", "error", "lines", "program", "status"], opts=D0, native=False),
  R("heng.Pipes", "pipelines of three stages", {"stages": 3, "lines": 1, "kinds": 1, "size": 0}, {"stages": 3, "lines": 2}, ["broken", "error", "lines"], opts=D0, native=False),
  R("heng.Pipes", "when one of the threads is delayed", {"stages": 2, "lines": 1, "size": 0, "modes": 2}, {"stages": 2, "lines": 1}, PL, opts=D1, native=False),
  R("heng.Pipes", "captures when one of the threads is delayed", {"stages": 1, "lines": 1, "capture": 1, "modes": 2}, {"stages": 2, "lines": 1, "capture": 1, "kinds": 1}, ["captured", "error"], opts=D1, native=False),
  R("heng.Pipes", "pipelines of four stages", None, {"stages": 4, "lines": 1, "kinds": 1, "size": 0}, PL, opts=D0, native=False, tier="thorough"),
  R("heng.Pipes", "when two of the threads are delayed", None, {"stages": 2, "lines": 1, "size": 0, "modes": 2}, PL, opts=D2, native=False, tier="thorough"),
  R("heng.Pipes", "when one of the threads is preempted or held up", None, {"stages": 2, "lines": 1, "size": 0, "kinds": 1, "modes": 2, "cap": 1}, PL, opts=HX, native=False, tier="thorough"),
  assumptions=COMMON + ["the models of pipes, signals and processes"])

P("C37", "up to 2 (thorough 3) files, each without a name or with one (an arbitrary byte; for tasks, the same), importing the next or not, exporting a value of one arbitrary byte, failing at its start (before or after its name), at its end, or not; histories of up to 2 imports; 2 (thorough 3) tasks that import at the same time, under every schedule that differs from round-robin by up to 1 (thorough 2) delays; with race detection",
  "files that import themselves, directly or through others (they never end); more files, imports and tasks", NOTE,
  R("heng.Imports", "what importing a file gives", {"files": 2, "imports": 1}, {"files": 2, "imports": 2}, ["error", "nested", "object"], opts=D0, native=False),
  R("heng.Imports", "imports one after the other", {"files": 2, "imports": 2, "fails": 1}, {"files": 3, "imports": 2, "fails": 1}, ["nested", "object", "shared"], opts=D0, native=False),
  R("heng.Imports", "imports again after an error", {"files": 1, "imports": 3}, {"files": 1, "imports": 4}, ["error", "object", "shared"], opts=D0, native=False),
  R("heng.Imports", "imports by tasks at the same time", {"files": 2, "imports": 2, "fails": 1, "shared": 1, "tasks": 1}, {"files": 2, "imports": 2, "shared": 1, "tasks": 1}, ["nested", "object", "shared"], opts=D1, native=False),
  R("heng.Imports", "errors in imports by tasks at the same time", {"files": 1, "imports": 2, "shared": 1, "tasks": 1}, {"files": 1, "imports": 3, "shared": 1, "tasks": 1}, ["error", "object", "shared"], opts=D1, native=False),
  R("heng.Imports", "the same, with two delays", None, {"files": 2, "imports": 2, "fails": 1, "shared": 1, "tasks": 1}, ["nested", "object", "shared"], opts=D2, native=False, tier="thorough"),
  R("heng.Imports", "one import of three files", None, {"files": 3, "imports": 1}, ["error", "nested", "object"], opts=D0, native=False, tier="thorough"),
  assumptions=COMMON + ["the model of the file system"])

P("C38", "a method or program with 1 or 2 substitutions, read or written, of methods or programs, up to 2 lines of up to one arbitrary byte for each, one of the methods raising an error at its end; fifos that hold up to 3 bytes; under every schedule that differs from round-robin by up to 1 (thorough 2) delays; with race detection",
  "commands that do not open, or not read to its end, a file they are given; more substitutions and longer lines; programs that are killed by SIGPIPE", NOTE,
  R("heng.Substs", "one substitution", {"substitutions": 1}, {"substitutions": 1, "lines": 3}, ["error", "read", "status", "value", "written"], opts=D0, native=False),
  R("heng.Substs", "two substitutions", {"substitutions": 2, "lines": 1, "kinds": 1, "size": 0}, {"substitutions": 2, "lines": 1}, ["error", "read", "value", "written"], opts=D0, native=False),
  R("heng.Substs", "when one of the threads is delayed", {"substitutions": 1, "lines": 1, "kinds": 1, "size": 0, "cap": 1}, {"substitutions": 2, "lines": 1, "kinds": 1, "size": 0, "cap": 1}, ["error", "read", "value", "written"], opts=D1, native=False),
  R("heng.Substs", "the same, for programs", {"substitutions": 1, "lines": 1, "size": 0, "failing": 1}, {"substitutions": 1, "lines": 2, "failing": 1}, ["read", "status", "value", "written"], opts=D1, native=False),
  R("heng.Substs", "when two of the threads are delayed", None, {"substitutions": 1, "lines": 1, "kinds": 1, "size": 0, "cap": 1}, ["error", "read", "value", "written"], opts=D2, native=False, tier="thorough"),
  assumptions=COMMON + ["the models of pipes, fifos, signals and processes"])

P("C24", "a task of up to 2 (thorough 3) steps, each of which does nothing, waits for a result or takes long, and up to 4 (thorough 5) requests to stop, run, interrupt, notify or let a step end, at any point, under every schedule with 1 (thorough 2) preemptions after which the task may be held up until nothing else can run, or up to 2 (thorough 3) delays; commands of up to 3 tasks of 4 shapes, with up to 2 keys to stop or interrupt them at any point, in up to 3 rounds, continued with fg or bg; with race detection",
  "longer histories; more preemptions and delays; an interrupt that overtakes a stop that is under way may end some tasks of a command only; requests to the state of a task that do not come from the monitor", NOTE,
  R("heng.Halting", "a task and its requests, when one of the threads is preempted or held up", {"events": 4, "steps": 2}, {"events": 5, "steps": 3}, HALT, opts=HX, native=False),
  R("heng.Halting", "the same, and a delay", {"events": 3, "steps": 2}, {"events": 4, "steps": 2}, HALT, opts=HX1, native=False),
  R("heng.Halting", "the same with two preemptions", {"events": 2, "steps": 2}, {"events": 3, "steps": 2}, HALT, opts=HX2, native=False),
  R("heng.Halting", "delays", {"events": 4, "steps": 2}, {"events": 5, "steps": 2}, HALT, opts=D2, native=False),
  R("heng.Keys", "commands and keys, when one of the threads is preempted or held up", {"keys": 1}, {"keys": 2}, KEYS, opts=HX, native=False),
  R("heng.Keys", "commands and keys, with delays", {"keys": 2}, {"keys": 2, "rounds": 3}, KEYS, opts=D2, native=False),
  assumptions=COMMON + ["the models of signals and processes"])

P("C25", "histories of up to 4 (thorough 5) commands and events at the prompt: starting tasks that end when told, tasks that wait for another task, for a child or for two children, waiting in the foreground for one or two tasks, for all of them or for a task of the same command; letting tasks end in any order; stopping a command that waits, with its child, and continuing it with fg or bg; and histories of 3 or 4 in which tasks end while the next command is entered, under every schedule with up to 1 delay (thorough: or 1 preemption)",
  "longer histories; waiting for a task of one's own callers (which never ends)", NOTE,
  R("heng.Waits", "histories of commands and events", {"steps": 4}, {"steps": 5}, ["continue", "held", "over", "released", "stop"], opts=D0, native=False),
  R("heng.Waits", "tasks that end while others are started or waited for", {"steps": 3, "together": 1}, {"steps": 4, "together": 1}, ["continue", "held", "over", "released", "stop"], opts=D1, native=False),
  R("heng.Waits", "longer histories of simple commands", {"steps": 5, "commands": 4, "keys": 0}, {"steps": 6, "commands": 5, "keys": 0}, ["held", "over", "released"], opts=D0, native=False),
  R("heng.Waits", "simple commands", {"steps": 4, "commands": 4, "keys": 0, "together": 1}, {"steps": 5, "commands": 4, "keys": 0, "together": 1}, ["held", "over", "released"], opts=D1, native=False),
  R("heng.Waits", "when one of the threads is preempted or held up", None, {"steps": 3, "together": 1}, ["held", "over", "released"], opts=HX, native=False, tier="thorough"),
  assumptions=COMMON + ["the models of signals and processes"])

MH = dict(MT, maxSteps=20000000)
LN = ["completion", "line"]
NM = ["name", "none", "word"]
P("C29", "every word of up to 3 (thorough 4) characters of 5 alphabets of 4 or 5 characters, as an argument in up to 5 contexts, in 4 directories, among files, directories and links on 3 levels; lines of up to 1 arbitrary character (thorough 2), and of up to 2 (thorough 3) characters of 4 alphabets, in 5 contexts, with 4 texts after the cursor, as a first line or continuing one of 4 open commands; completed by the interactive shell's own completer",
  "longer words; names offered by bash's completion; characters that bash-style quoting or oh's variables would change in a word; directories without permission", NOTE,
  R("hmain.Completions", "the names offered", {"n": 3, "set": 0}, {"n": 4, "set": 0}, NM, opts=MH, native=False),
  R("hmain.Completions", "the names offered in the home directory", {"n": 3, "set": 1}, {"n": 4, "set": 1}, NM, opts=MH, native=False),
  R("hmain.Completions", "the names offered through links", {"n": 3, "set": 2}, {"n": 4, "set": 2}, NM, opts=MH, native=False),
  R("hmain.Completions", "the names offered outside ASCII", {"n": 3, "set": 3}, {"n": 4, "set": 3}, NM, opts=MH, native=False),
  R("hmain.Completions", "the names offered beside the home directory", {"n": 3, "set": 4}, {"n": 4, "set": 4}, NM, opts=MH, native=False),
  R("hmain.Completions", "the names offered in other contexts", {"n": 2, "set": 0, "before": 5}, {"n": 3, "set": 0, "before": 5}, NM, opts=MH, native=False),
  R("hmain.Completions", "the names offered without bash", {"n": 1, "set": 0, "bash": 1, "cwds": 2, "rests": 1}, {"n": 2, "set": 0, "bash": 1}, ["name", "word"], opts=MH, native=False),
  R("hmain.Lines", "any line keeps its text", {"n": 1}, {"n": 2}, LN, opts=MH, native=False),
  R("hmain.Lines", "any line keeps its text: quotes and parentheses", {"n": 2, "set": 1}, {"n": 3, "set": 1}, LN, opts=MH, native=False),
  R("hmain.Lines", "any line keeps its text: words", {"n": 2, "set": 2}, {"n": 3, "set": 2}, LN, opts=MH, native=False),
  R("hmain.Lines", "any line keeps its text: references and braces", {"n": 2, "set": 3}, {"n": 3, "set": 3}, LN, opts=MH, native=False),
  R("hmain.Lines", "any line keeps its text: operators", {"n": 2, "set": 4}, {"n": 3, "set": 4}, LN, opts=MH, native=False),
  assumptions=COMMON + ["the model of the file system", "liner calls the completer with the line and the cursor's position in characters"])

SE = ["abort", "block", "end", "error", "joined", "run", "string", "syntax"]
P("C35", "every session of up to 3 (thorough 4) lines of 14 kinds at a prompt for a command, 7 in a block, 3 in a string and 3 after a line ended by a backslash, with arbitrary characters in one-line sessions and one of two characters at every place in longer ones, with up to 1 (thorough 2) interrupts and requests for completion of one of 10 texts in between, in the shell's own main program; then the end of input",
  "longer sessions; other commands; the line editor itself", NOTE,
  R("hmain.Session", "one line, with any text", {"steps": 1, "tabs": 0}, {"steps": 1}, ["abort", "end", "error", "run", "syntax"], opts=MH, native=False),
  R("hmain.Session", "lines and interrupts", {"steps": 3, "tabs": 0, "chars": 1}, {"steps": 3, "tabs": 0, "chars": 1, "aborts": 2}, SE, opts=MH, native=False),
  R("hmain.Session", "requests for completion in between", {"steps": 2, "chars": 1, "aborts": 0}, {"steps": 3, "chars": 1, "tabs": 1, "aborts": 0}, ["block", "end", "error", "joined", "run", "string", "syntax", "tab"], opts=MH, native=False),
  R("hmain.Session", "longer sessions", None, {"steps": 4, "tabs": 0, "chars": 1, "aborts": 0}, ["block", "end", "error", "joined", "run", "string", "syntax"], opts=MH, native=False, tier="thorough"),
  assumptions=COMMON + ["the model of the line editor, which hands over the lines typed"])

P("C36", "scripts with names of one character of 17 before .oh, commands with and without a name, up to 1 argument of up to one character of 17 after nothing, a dash or an option, and 2 of up to one character of 4; scripts and commands given of up to 2 commands of 11 kinds (the first of 6; thorough up to 3 of any), with or without a newline or an unfinished command at the end, run by the shell's own main program",
  "longer names and arguments; -i, -m and -s; scripts found with OHPATH; what the status is after an uncaught error", NOTE,
  R("hmain.Arguments", "names of scripts and commands", {"args": 0}, {"args": 0}, ["command", "named", "script"], opts=MH, native=False),
  R("hmain.Arguments", "an argument", {"args": 1, "names": 0}, {"args": 1, "names": 2}, ["arguments", "command", "named", "script"], opts=MH, native=False),
  R("hmain.Arguments", "arguments", {"args": 2, "names": 0, "texts": 2}, {"args": 3, "names": 0, "texts": 2}, ["arguments", "command", "named", "script"], opts=MH, native=False),
  R("hmain.Commands", "what is run", {"n": 2, "few": 1}, {"n": 3}, ["error", "exit", "open", "quoted", "run", "syntax"], opts=MH, native=False),
  assumptions=COMMON)
