#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements are easy to edit)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   observe_at=observe, hook_needed=None)))

p("C01", "Buildozer list edits compute exactly the documented list value",
  "For every rule and every sequence of buildozer add, remove, move, replace and substitute commands on an attribute whose value is a list of strings, a select, or a sum of those, the value left in the file is exactly the one the documented command semantics define. In particular values are matched as labels relative to the package (`:a`, `//pkg:a` and `a` are the same thing), an added value appears exactly once, a removed value is gone from every list and every select branch, an attribute whose last element is removed disappears, and all other elements survive. Commands that find nothing to do leave the file and report no change.",
  ["inputs", "histories"], "all initial attribute values (lists, selects, concatenations), all argument lists, all command histories",
  "The shell test suite samples about a hundred single commands with hand-written BUILD files; interactions between select branches, label spellings, repeated values and several successive commands are combinatorial.",
  ["edit/edit.go", "edit/buildozer.go"],
  [("AddValueToList / ListDelete / ListReplace / ListSubstitute", "edit/edit.go"), ("ResolveAttr (select simplification)", "edit/edit.go"), ("cmdAdd, cmdRemove, cmdMove, cmdReplace, cmdSubstitute", "edit/buildozer.go")],
  ["BUILD file contents after a buildozer run", "buildozer exit status"],
  [("attribute value", "list / select / concatenation expression tree", "build.CallExpr argument")])

p("C02", "Buildozer scalar and dictionary edits follow their documented semantics",
  "For every rule and every sequence of buildozer set, set_if_absent, set_select, rename, remove, remove_if_equal, copy, copy_no_overwrite, dict_set, dict_add, dict_remove, dict_list_add and dict_replace_if_equal commands, the attributes left on the rule are exactly those the documented semantics define: conditional forms act only under their condition, non-overwriting forms never change an existing value, keys never touched keep their values, and the value written has the type that attribute takes (list, integer, identifier or string). Setting an attribute never creates a second occurrence of it, and the rule's kind can be set like an attribute.",
  ["inputs", "histories"], "all attribute values and all histories of attribute commands over one or two rules",
  "Tests check each command once or twice; the conditional and non-overwriting semantics matter in histories where an earlier command created, renamed or removed the attribute.",
  ["edit/buildozer.go", "edit/edit.go"],
  [("cmdSet, cmdSetIfAbsent, cmdRename, cmdRemoveIfEqual, cmdCopy, cmdCopyNoOverwrite, cmdDict*", "edit/buildozer.go"), ("DictionarySet, DictionaryGet, DictionaryDelete", "edit/edit.go")],
  ["BUILD file contents after a buildozer run", "buildozer exit status"])

p("C03", "Buildozer creates, deletes and places rules and loads exactly as asked",
  "For every package, `new` adds exactly one rule of the requested kind and name at the documented position (before or after the named rule, or the default place) and fails without a change if the name is taken; `delete` removes exactly the addressed rules and nothing else; `new_load`, `replace_load` and `substitute_load` leave the file loading exactly the symbols that result from the request, with no symbol lost, loaded twice, or loaded under the wrong local name.",
  ["inputs", "histories"], "all package contents and all histories of package-level commands",
  "Placement and load merging depend on what is already in the file (same file loaded, same symbol loaded elsewhere, aliases, package statements, comments); tests pick single configurations.",
  ["edit/buildozer.go", "edit/edit.go"],
  [("cmdNew, findInsertionIndex, InsertAfter/InsertAfterLastOfSameKind", "edit/buildozer.go, edit/edit.go"), ("DeleteRule", "edit/edit.go"), ("ReplaceLoad, InsertLoad, AppendToLoad, NewLoad", "edit/edit.go")],
  ["order, kinds and names of the top-level statements and loads after a buildozer run"])

p("C04", "A buildozer target addresses exactly the rules it names",
  "For every package and every target label, the rules a command is applied to are exactly those the label denotes: the rule of that name, every rule for `all` or `*`, the rules of a kind for `%kind`, the rule at a line for `%line`, the package statement for `__pkg__`, restricted by the rule-type filter when one is given. A label that denotes nothing is an error that names it and changes nothing. The package part of the label selects the BUILD file relative to the workspace, whichever spelling (`//p:r`, `p:r`, `:r`, `//p`, with or without the BUILD file name) is used.",
  ["inputs", "configurations"], "all package contents, all label spellings, all workspace layouts of the modelled shape",
  "The selection rules interact (names equal to kinds, rules without names, nested calls, lines inside multi-line rules, several BUILD file names, types filter); tests exercise each form once.",
  ["edit/edit.go", "edit/buildozer.go", "wspace/workspace.go", "build/rule.go"],
  [("expandTargets, filterRules", "edit/buildozer.go"), ("InterpretLabelForWorkspaceLocation", "edit/edit.go"), ("FindRuleByName, RuleAt, Rules", "edit/edit.go, build/rule.go")],
  ["set of rules changed or printed by a buildozer run"])

p("C05", "Buildozer leaves everything it was not asked to change untouched",
  "For every BUILD file and every successful buildozer command, each statement, attribute and comment that the command does not address is still present afterwards, unchanged and in the same relative order, up to buildifier formatting of the file. Comments attached to surviving elements of an edited list or rule stay attached to those elements. A command that changes nothing leaves the file byte-for-byte as it was.",
  ["inputs", "histories"], "all files with arbitrary other statements, expressions and comments; all command histories",
  "Tests compare whole outputs for small files without unrelated content; losing an unrelated comment, statement or attribute needs that content to be there.",
  ["edit/edit.go", "edit/buildozer.go", "build/print.go"],
  [("rewrite (parse, edit, format)", "edit/buildozer.go"), ("in-place tree edits", "edit/edit.go")],
  ["file contents before and after a buildozer run"])

p("C06", "A multi-file buildozer run is deterministic, atomic per file and truthful",
  "Each file addressed by a run ends up as if its commands alone had been applied to it in the order given, independently of the other files, of the number of I/O workers and of the schedule. If any command for a file fails and keep-going is off, that file is left exactly as it was; other files are still processed. The exit status says exactly what happened: 0 if something was written (or only queries ran), 2 if there was an error, 3 if nothing changed, and with -stdout no file is ever written.",
  ["schedules", "histories", "fault_sequences"], "all assignments of commands to targets and files, all worker counts and schedules, all combinations of failing and succeeding commands",
  "Tests run one or two files in one process with a default worker count and never vary the schedule; shared state between workers only shows with several files and aliased commands.",
  ["edit/buildozer.go"],
  [("worker pool over commandsByFile", "edit/buildozer.go"), ("rewrite", "edit/buildozer.go"), ("Buildozer exit status", "edit/buildozer.go")],
  ["files after the run", "exit status", "stderr"])

p("C07", "Buildozer command files and command arguments are split exactly as written",
  "Every non-blank, non-comment line of a command file is one entry whose fields are separated by unescaped `|`, commands coming first and targets last; inside a command, arguments are separated by unescaped spaces, and `\\ ` and `\\|` stand for the literal characters. A target `*` means the targets given on the command line. Running commands from a file has the same effect as giving them on the command line.",
  ["inputs"], "all command-file contents over the separator, escape, space and ordinary characters",
  "Splitting and escaping bugs show only for particular adjacent combinations of separators and escapes; the unit tests list a few.",
  ["edit/buildozer.go"],
  [("appendCommandsFromReader, SplitOnSpaces, commandsForTarget", "edit/buildozer.go, edit/edit.go")],
  ["effect of the run on the BUILD files"])

p("C08", "Buildozer comment commands edit exactly the addressed comment",
  "`comment` attaches the given text, line by line, to exactly the addressed node (the rule, the attribute, or the value in the attribute's list), replacing what was there; `remove_comment` removes exactly the comments of that node; `print_comment` prints exactly the text `comment` wrote, or what was in the file. All other comments and all code are unaffected, and the result survives being reformatted and re-read.",
  ["inputs", "histories"], "all comment texts, all rules, attributes and values, all histories of comment commands",
  "Tests check single comment commands on clean rules; which node a comment belongs to after printing and re-parsing is only visible over several commands.",
  ["edit/buildozer.go", "build/lex.go", "build/print.go"],
  [("cmdComment, cmdRemoveComment, cmdPrintComment", "edit/buildozer.go"), ("comment assignment and printing", "build/lex.go, build/print.go")],
  ["comments in the BUILD file after the run, print_comment output"])

p("C09", "Editing module-extension repos keeps MODULE.bazel consistent",
  "For every MODULE.bazel file, `use_repo_add` makes every requested repository be imported exactly once from the named extension (with the requested name and the requested dev-dependency flavour), touching no other extension usage, and `use_repo_remove` makes exactly the requested repositories no longer be imported from it. All imports of other repositories, other extensions, isolated usages and the other statements are unchanged, a missing usage is created only when needed, and a use_repo left without repositories disappears.",
  ["inputs", "histories"], "all arrangements of use_extension, tag calls and use_repo statements and all histories of adds and removes",
  "An extension may be used through several proxies (dev and non-dev, isolated, several spellings of its label) and several use_repo calls; tests have a handful of files.",
  ["edit/bzlmod/bzlmod.go", "edit/buildozer.go"],
  [("Proxies, AllProxies, UseRepos, NewUseRepo, AddRepoUsages, RemoveRepoUsages", "edit/bzlmod/bzlmod.go"), ("cmdUseRepoAdd, cmdUseRepoRemove", "edit/buildozer.go")],
  ["use_repo statements in MODULE.bazel after the run"])

p("C10", "Buildozer queries report what is in the file and never change it",
  "For every package, `print` outputs one line per addressed rule, in file order, with the requested fields in the requested order: the attribute's value as written, `(missing)` when absent, and the documented special fields (name, kind, label, rule, line range, attributes). Query commands never modify any file, and a run consisting only of queries exits 0.",
  ["inputs"], "all packages, all field lists, all target patterns",
  "Output quoting depends on the value's type and content; tests check a few fields on a few rules.",
  ["edit/buildozer.go"],
  [("cmdPrint, printFields", "edit/buildozer.go")],
  ["standard output of a buildozer print run", "files afterwards"])

p("C11", "Expressions parse to the tree the Starlark grammar defines",
  "Every token sequence that is a Starlark expression is accepted and yields the syntax tree the grammar's precedence and associativity define, and every token sequence that is not one is rejected with an error (except for the extensions and leniencies the parser documents in its grammar: chained comparisons, stray commas in argument lists, `not`, `lambda` and conditionals as operands), whatever the white space, line breaks inside brackets and redundant parentheses. Printing a tree and parsing it again yields the same tree.",
  ["inputs"], "all token sequences up to the modelled length and random longer ones, with arbitrary layout",
  "Operator and bracket combinations are unbounded; the parser tests contain about forty hand-written inputs.",
  ["build/parse.y", "build/lex.go", "build/print.go"],
  [("grammar and precedence declarations", "build/parse.y"), ("lexer", "build/lex.go"), ("printer precedence handling", "build/print.go")],
  ["syntax tree from parsing, or the syntax error"])

p("C12", "Indentation determines the block structure of a Starlark file",
  "For every sequence of lines, the parser accepts it exactly when the indentation is consistent (each block indented further than its header, each dedent returning to an enclosing level) and the statement nesting it produces is exactly the one the indentation shows, regardless of blank lines, comments at any column, brackets or backslashes spanning lines, and a missing final newline. A rejected file yields an error with a position inside the file, never a crash or a silently different tree. Formatting keeps the nesting.",
  ["inputs"], "all line sequences of the modelled statement kinds and indentations up to the bound, and longer random ones",
  "Indentation handling is a stack machine in the lexer interacting with comments and blank lines; tests have a few layouts.",
  ["build/lex.go", "build/parse.y", "build/print.go"],
  [("indentation stack in the lexer", "build/lex.go"), ("suite grammar", "build/parse.y"), ("nestedStatements", "build/print.go")],
  ["nesting of statements in the syntax tree; syntax errors"])

p("C13", "A string literal keeps its value through parsing, printing and formatting",
  "For every string literal, in any quoting style (single, double, triple, raw) and with any escapes, parsing yields the value the Starlark language defines, and the formatted file contains a literal with exactly the same value (only the continuation lines of a function's docstring move with the indentation of the function). For every string value there is a literal the printer writes that reads back as that value, and formatting that literal again changes nothing.",
  ["inputs"], "all literals over the escape-relevant alphabet up to the bound, all values, random longer ones",
  "Escapes, quotes of both kinds, triple quotes, raw strings and line ends interact; unit tests list fixed examples.",
  ["build/quote.go", "build/lex.go", "build/print.go"],
  [("Unquote, quote, IsCorrectEscaping", "build/quote.go"), ("StringExpr printing", "build/print.go")],
  ["string values in the syntax tree before and after formatting"])

p("C14", "Formatting never changes what a file means",
  "For every syntactically valid file of any type, the formatted file parses, and its statements and expressions are the same as the original's, in the same order, except for the documented canonicalizations (ordering and de-duplication of sortable lists, ordering of keyword arguments, label shortening, ordering and merging of loads, redundant parentheses, number spelling). In particular, files that are not BUILD, WORKSPACE or MODULE files get none of the BUILD-only rewrites, and no statement, argument, element or operator is ever lost, duplicated or moved elsewhere.",
  ["inputs", "programs"], "all programs of the modelled language, all file types, all layouts",
  "Golden files cover a fixed set of programs; the printer and rewriter are syntax-directed over the whole language and their interactions (nesting, layout, comments, file type) are unbounded.",
  ["build/print.go", "build/rewrite.go", "build/parse.y"],
  [("printer", "build/print.go"), ("rewrites and their per-file-type scopes", "build/rewrite.go")],
  ["syntax tree of the formatted output compared with that of the input"])

p("C15", "Formatting is idempotent",
  "Formatting an already formatted file changes nothing, for every file and every file type, including files with comments in any position, line breaks in any position and suppressing directives. The same holds for what buildozer and the lint fixer write: a following format leaves it as it is.",
  ["inputs", "programs"], "all programs of the modelled language with comments and layout, all file types",
  "Non-idempotence needs specific combinations of layout, comments and rewrites; golden tests check that only for the golden files.",
  ["build/print.go", "build/rewrite.go", "build/lex.go"],
  [("Format = Rewrite then print", "build/print.go"), ("rewrite ordering", "build/rewrite.go")],
  ["bytes of the first and of the second formatting"])

p("C16", "No comment is lost, duplicated or detached by formatting",
  "Every comment of a file appears exactly once, with its text, in the formatted file. An end-of-line comment stays with the element it was written after and a whole-line comment stays in front of the element it was written before, also when lists are sorted, loads are moved and arguments are reordered.",
  ["inputs", "programs"], "all placements of whole-line and end-of-line comments in all programs of the modelled language",
  "The positions where a comment may stand multiply with the constructs and the rewrites that move code; golden files sample them.",
  ["build/lex.go", "build/print.go", "build/rewrite.go"],
  [("assignComments", "build/lex.go"), ("comment printing", "build/print.go"), ("rewrites moving commented nodes", "build/rewrite.go")],
  ["comments and their anchors in the formatted file"])

p("C17", "Lists, labels and arguments come out in canonical order and spelling",
  "In formatted BUILD files the keyword arguments of each rule are in the documented priority order, sortable lists are sorted in the documented label order without duplicates, and label attributes are in their shortened spelling; the result depends only on the contents, not on the initial order. Lists that are not known to be sortable keep their order unless marked `keep sorted`, lists marked `do not sort` and calls marked `buildifier: leave-alone` keep theirs, and elements never cross a comment-delimited or non-string boundary.",
  ["inputs"], "all element lists, argument sets, directives and tables of the modelled alphabet, all permutations",
  "Permutation-independence is a statement about all orders; tests have one or two orders per case.",
  ["build/rewrite.go", "tables/tables.go"],
  [("sortStringList, sortStringLists, uniq", "build/rewrite.go"), ("sortCallArgs", "build/rewrite.go"), ("fixLabels", "build/rewrite.go")],
  ["order and spelling of elements and arguments in the formatted output"])

p("C18", "Load statements are canonicalised without changing what is loaded",
  "For every file, formatting leaves exactly the same set of (local name, file, exported name) bindings loaded, with loads of the same file merged, symbols in canonical order and load statements in canonical order at the documented place. Directives that disable a load rewrite disable exactly that rewrite, and WORKSPACE files keep the order and place of their loads.",
  ["inputs"], "all sequences of load and other statements over the modelled labels, symbols, aliases and directives, all file types",
  "Merging, sorting and moving loads interact with comments, aliases and duplicates; tests use a few files.",
  ["build/rewrite.go"],
  [("fixLoadSort, sameOriginLoad, sortAllLoadArgs, moveLoadOnTop, compressSameOriginLoads", "build/rewrite.go")],
  ["load statements in the formatted output"])

p("C19", "Control-flow lints agree with the program's paths",
  "For every function body, the unreachable-statement, missing-return-value and uninitialized-variable lints report exactly the statements and uses for which the corresponding fact holds over the execution paths of the structured program: a statement that no path reaches, a function where some path returns a value while another returns without one, a use reached by some path that has not assigned the variable. They report nothing else, at the right line.",
  ["programs"], "all structured function bodies up to the modelled size and random larger ones",
  "Path properties of nested if/for/return/fail bodies are combinatorial; tests list about thirty bodies.",
  ["warn/warn_control_flow.go"],
  [("missingReturnValueWarning, unreachableStatementWarning, uninitializedVariableWarning", "warn/warn_control_flow.go")],
  ["lint findings (category, line)"])

p("C20", "Unused-name lints follow Starlark scoping",
  "For every file, the unused-variable lint reports exactly the local bindings that no use in their scope can refer to, and the unused-load lint exactly the loaded symbols that nothing refers to or that are loaded twice, with function parameters, loop and comprehension variables, nested functions, shadowing and deliberate markers (leading underscore, `@unused`) treated as documented. Fixing unused loads removes exactly the unused symbols and never a used one.",
  ["programs"], "all programs of the modelled binding constructs",
  "Scoping rules interact (shadowing, comprehension scopes, nested functions, augmented assignment); tests sample them.",
  ["warn/warn_control_flow.go", "bzlenv/bzlenv.go"],
  [("unusedVariableWarning, unusedLoadWarning", "warn/warn_control_flow.go"), ("scoped environments", "bzlenv/bzlenv.go")],
  ["lint findings and fixed output"])

p("C21", "Suppression comments silence exactly the findings they name",
  "A `buildifier: disable=category` comment suppresses the findings of that category whose reported position lies within the statement or expression the comment is attached to, and no others; findings of enabled categories outside it are all reported, each exactly once, in line order. A suppressed finding is not fixed either.",
  ["inputs", "configurations"], "all placements of suppression comments over all enclosing nodes, all category sets",
  "Which node a comment is attached to and which spans it covers multiplies with nesting; tests use a few placements.",
  ["warn/warn.go"],
  [("DisabledWarning, FileWarnings, FixWarnings", "warn/warn.go")],
  ["lint findings", "fixed files"])

p("C22", "Lint fixes are safe, complete and stable",
  "Applying fixes for a set of categories yields a file that still parses, in which the findings that fix claims to resolve are gone, and fixing again changes nothing (unless the fix of a category that comes later in the order of names made new findings of an earlier one; the next run fixes those). Comments stay, and looking for warnings or suggesting fixes does not change the file; a suggestion is what the fix does. Parts of the file without findings of the selected categories are unchanged, categories that were not selected are not fixed, and the result of a fix means what the documentation of the warning says.",
  ["inputs", "configurations"], "all programs of the modelled fixable constructs, all category subsets",
  "Fixes interact with each other and with formatting; tests apply one category to one snippet at a time.",
  ["warn/warn.go", "warn/warn_bazel_api.go", "warn/warn_cosmetic.go", "warn/warn_bazel.go", "warn/warn_operation.go"],
  [("FixWarnings", "warn/warn.go"), ("replacements of the individual warnings", "warn/*.go")],
  ["fixed file, findings before and after"])

p("C23", "Macro detection follows the call graph across files",
  "A public function without a name parameter is reported as an unnamed macro exactly when it can reach, through calls, aliases and loads in any number of files, a rule definition or a native rule; calls through loaded names are resolved in the file they are loaded from. Recursion among functions or files, missing files and unparsable files never make the analysis fail or loop, and the verdict does not depend on the order of functions, files or calls.",
  ["programs", "inputs"], "all call graphs over the modelled number of functions and files",
  "The verdict is a reachability property with memoisation over arbitrary, possibly cyclic graphs; tests have a dozen graphs.",
  ["warn/warn_macro.go", "warn/multifile.go", "warn/warn_deprecated.go"],
  [("macroAnalyzer.IsMacro with cache", "warn/warn_macro.go"), ("FileReader cache", "warn/multifile.go")],
  ["unnamed-macro findings"])

p("C24", "Buildifier writes, prints and exits exactly as its mode says",
  "For every set of input files and every combination of mode, lint mode, format and related flags, buildifier writes a file only in fix mode and only if its content changes, prints and reports exactly what the mode documents, and exits with the documented status (0 clean, 1 syntax error, 2 usage error, 3 internal or I/O error, 4 needs reformatting or has lint findings). A file that cannot be read or parsed is left untouched, is reported, and does not stop the other files from being processed. Invalid flag combinations are rejected before any file is touched.",
  ["configurations", "histories", "fault_sequences"], "all combinations of modes, flags and file states over the modelled file set",
  "The integration test runs a few dozen command lines; the product of modes, lint modes, formats, file states and their order is much larger.",
  ["buildifier/buildifier.go", "buildifier/config/validation.go", "buildifier/utils/diagnostics.go"],
  [("run, processFiles, processFile", "buildifier/buildifier.go"), ("flag validation", "buildifier/config/validation.go")],
  ["exit status, stdout, JSON diagnostics, file contents and modification"])

p("C25", "Buildifier settings come from the documented source",
  "For every combination of command-line flags, -config value, BUILDIFIER_CONFIG environment variable and .buildifier.json files in enclosing directories, the effective setting of every option is the flag's value if the flag is given, else the value in the selected configuration file, else the default. Exactly one configuration file is selected (-config first, then the environment, then the nearest enclosing file), `off` selects none, and warning lists with + and - modify the default set while plain lists replace it.",
  ["configurations"], "all combinations of the modelled configuration sources and values",
  "Precedence is a product of sources; unit tests check individual loaders, never the whole resolution.",
  ["buildifier/config/config.go", "buildifier/config/validation.go", "buildifier/buildifier.go"],
  [("FindConfigPath, LoadFile, New, Validate", "buildifier/config/config.go"), ("flag parsing", "buildifier/buildifier.go")],
  ["effective behaviour of a buildifier run"])

p("C26", "Label parsing, shortening and comparison agree with each other",
  "For every label string and package, parsing yields the repository, package and target the label syntax defines; formatting and re-parsing gives the same label; shortening never changes which target a label denotes, never lengthens it beyond its canonical form and is idempotent; comparison is an equivalence relation that holds exactly when two spellings denote the same target in that package.",
  ["inputs"], "all strings over the label-relevant alphabet up to the bound, all packages, random longer ones",
  "Tests list fixed examples; the guarantees are algebraic laws over all label spellings.",
  ["labels/labels.go"],
  [("Parse, ParseRelative, Format, FormatRelative, Shorten, Equal", "labels/labels.go")],
  ["values returned by the label functions; spelling of labels written by the tools"])

p("C27", "Files, packages and workspace roots are recognised by their place and name",
  "For every directory tree, recursive buildifier processes exactly the Starlark files below the given directories (never anything in a version-control directory), each file is treated as the type its name and location imply, and the workspace root is the nearest enclosing directory holding a workspace marker, with package and relative path computed from it. The answer does not depend on the working directory or on how the path is spelled.",
  ["inputs", "configurations"], "all directory trees of the modelled shape, all modelled file names, all path spellings",
  "File-name and marker combinations multiply with tree shapes; tests use fixed lists of names and one or two trees.",
  ["wspace/workspace.go", "buildifier/utils/utils.go", "build/lex.go"],
  [("FindWorkspaceRoot, SplitFilePath", "wspace/workspace.go"), ("ExpandDirectories, isStarlarkFile", "buildifier/utils/utils.go"), ("getFileType", "build/lex.go")],
  ["files processed, file types, package and workspace root reported"])

p("C28", "User tables replace or extend the built-in tables exactly",
  "Loading a table file with replacement makes the given tables be the only ones in effect; loading it as an addition makes every given entry take effect and leaves every other built-in entry as it was, for every table and every entry, in whatever order the files are given. The tables in effect determine the formatted output in the documented way, and an invalid table file is reported and changes nothing.",
  ["inputs", "configurations"], "all table files over the modelled attributes, all sequences of loads, all lists they apply to",
  "Tests load one file and compare the tables once; histories of loads and the effect on formatting are not covered.",
  ["tables/jsonparser.go", "tables/tables.go", "build/rewrite.go"],
  [("ParseAndUpdateJSONDefinitions, OverrideTables, MergeTables", "tables/")],
  ["formatted output under the tables"])

p("C29", "unused_deps proposes removing exactly the unused direct dependencies",
  "For every build graph, the commands printed for a rule concern exactly those of its direct dependencies written in the BUILD file that the compiler did not use explicitly, each once, labels being matched whatever their spelling and repository; a dependency annotated as a runtime dependency is moved instead of removed. Rules without unused dependencies print nothing, and missing or unreadable reports of the compiler never cause a used dependency to be reported.",
  ["inputs", "fault_sequences"], "all dependency sets, label spellings, annotations and missing-file combinations of the modelled size",
  "There is no test of the program as a whole; the unit tests cover jar manifest parsing only.",
  ["unused_deps/unused_deps.go", "unused_deps/jar_manifest.go"],
  [("directDepParams, unusedDeps, printCommands", "unused_deps/unused_deps.go"), ("jarManifestValue", "unused_deps/jar_manifest.go")],
  ["standard output of unused_deps"])

p("C30", "Traversing and editing syntax trees visits every node once, in order",
  "For every syntax tree, walking it visits every node (type annotations apart) exactly once in source order, parents before children, with the exact chain of ancestors, a stopped branch is the only thing skipped, and replacing nodes during an edit changes exactly those nodes. The rule view of a file lists exactly its outermost calls in order, and getting, setting and deleting rule attributes behave like operations on a map that keep the other arguments as they are.",
  ["inputs", "histories"], "all trees of the modelled language, all edit positions, all histories of attribute operations",
  "Tests walk one or two expressions; a traversal that forgets one child of one node kind is invisible unless that node kind is tested.",
  ["build/walk.go", "build/rule.go", "build/syntax.go"],
  [("walk1, WalkOnce, WalkStatements, Edit", "build/walk.go"), ("Rule accessors", "build/rule.go"), ("Span", "build/syntax.go")],
  ["sequence of visited nodes; tree after an edit"])

p("C31", "Buildozer fix commands normalise without changing what a package builds",
  "For every package, `fix` commands perform exactly the named normalisations (moving package statements, de-duplicating and merging lists, removing unused loads and empty attributes, upgrading documented legacy spellings) and nothing else: the set of rules, their kinds and their remaining attribute values are unchanged. Applying a fix twice is the same as applying it once, and a package needing no fix is left byte-for-byte as it is.",
  ["inputs", "histories"], "all packages over the modelled constructs, all sequences of fixes",
  "Each fix has one or two unit tests on minimal files; interplay with comments, several statements and other fixes is untested.",
  ["edit/fix.go", "edit/buildozer.go"],
  [("FixFile, RuleFixes, FileFixes", "edit/fix.go"), ("cmdFix", "edit/buildozer.go")],
  ["BUILD file contents after buildozer fix"])

import os
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
