"""What each property's check runs.  mc: design models explored by TLC; n: number of random cases;
trace: the specification module that judges the recorded observations."""
def nsteps(field="steps"):
    return lambda rec: 1
PROPS = {
 "C26": dict(trace="T_Labels", mc=[dict(module="MC_Labels", cfg="MC_Labels.cfg")],
             n=dict(quick=6000, thorough=60000),
             rule="every string over {a,b,/,:,@} up to length 5, every label emitted by MC_Labels, random longer labels and pairs of spellings; well-formed spellings are judged exactly, others only by the laws"),
 **{k: dict(trace="T_Fmt", trace_cfg="T_Fmt.cfg", mc=[dict(module="MC_Canon", cfg="MC_Canon.cfg", cfg_thorough="MC_Canon_t.cfg", cap=dict(quick=cap))],
             n=dict(quick=n, thorough=n * 12), rule=r) for k, n, cap, r in [
   ("C14", 3000, 900, "files emitted by MC_Canon plus random files of all file types, rendered in random layouts and quote styles; the normal form of the source tree equals the normal form of the tree of the formatted text"),
   ("C15", 5000, 900, "files emitted by MC_Canon plus random files with comments and directives, plus random texts with line breaks and comments inserted at every kind of place; formatting the formatted text changes no byte"),
   ("C16", 3000, 600, "random files with numbered comments on statements, arguments, elements, entries, loaded symbols and closing brackets: the token stream with comments equals that of the normal form; random texts with comments anywhere between statements: every comment occurs exactly once"),
   ("C17", 2500, 1800, "files emitted by MC_Canon plus random files with directives; the tree of the formatted text equals the normal form exactly (everything but loads)"),
   ("C18", 3500, 1800, "files emitted by MC_Canon plus random files with load statements; the statement list of the formatted text equals that of the normal form exactly")]},
 **{k: dict(trace="T_Bz", mc=[dict(module="MC_Bz", cfg="MC_Bz_%s.cfg" % foc, cfg_thorough="MC_Bz_%s_t.cfg" % foc, cap=dict(quick=cap, thorough=cap * 8), heap="8g")],
             n=dict(quick=n, thorough=n * 12), rule="histories emitted by MC_Bz (focus %s) plus random histories of 1 to 3 buildozer runs: " % foc + r + "; every run is judged by T_Bz from the file it started from: exit code, output, whether the file was written, and the tree left behind must be those of Run(..) in Buildozer.tla") for k, foc, n, cap, r in [
   ("C01", "list", 2500, 500, "add, remove, move, replace, substitute on attributes made of lists, selects, sums, names and globs, with labels in every spelling and several commands per run"),
   ("C02", "scalar", 2500, 440, "set, set_if_absent, set_select, rename, remove, remove_if_equal, copy, copy_no_overwrite and the dict_ commands on attributes of all types"),
   ("C03", "file", 2500, 540, "new, delete, new_load, replace_load, substitute_load on packages with loads, package statements, nested and nameless rules"),
   ("C04", "target", 3000, 168, "all spellings of labels and all kinds of target patterns, rule type filters, lines of multi-line rules, BUILD and BUILD.bazel"),
   ("C05", "frame", 1500, 400, "any commands on packages with other statements and numbered comments everywhere; compared with all comments in place"),
   ("C08", "comment", 1500, 468, "comment, remove_comment (and -eol-comments) on rules, attributes and list values with comments; compared with all comments in place"),
   ("C10", "print", 2000, 500, "print and print_comment, mixed with commands that change the file, on all target patterns; what was printed is compared as text or, for whole expressions, as trees")]},
 "C09": dict(trace="T_Bz", mc=[dict(module="MC_Mod", cfg="MC_Mod.cfg", cfg_thorough="MC_Mod_t.cfg", cap=dict(quick=500))],
             n=dict(quick=2500, thorough=30000),
             rule="histories emitted by MC_Mod plus random MODULE.bazel files with several usages of extensions (dev, isolated, all spellings of the label, tags, renamed imports, comments) and histories of up to four runs of use_repo_add and use_repo_remove by name and by label; every run is judged by T_Bz from the file it started from, with all comments"),
 "C31": dict(trace="T_Bz", mc=[dict(module="MC_Fix", cfg="MC_Fix.cfg", cfg_thorough="MC_Fix_t.cfg", cap=dict(quick=700, thorough=20000))],
             n=dict(quick=2500, thorough=30000),
             rule="histories emitted by MC_Fix plus random packages with loads, package and licenses statements, sums, selects, globs, options, location functions, varref, extend and append, and histories of single fixes, sets of fixes and all fixes on the whole file and on rules; every run is judged by T_Bz from the file it started from; a formatted file that needs no fix stays byte for byte (glob and exports_files always count as a change)"),
 "C11": dict(trace="T_Gram", mc=[dict(module="MC_Grammar", cfg="MC_Grammar.cfg", cfg_thorough="MC_Grammar_t.cfg", cap=dict(quick=8000, thorough=150000))],
             n=dict(quick=6000, thorough=80000),
             rule="every sequence of up to 4 tokens of an alphabet and every expression tree of bounded depth (MC_Grammar), plus random statements of the whole grammar with random white space, line breaks inside brackets, backslashes, comments, number and string forms, a third of them with tokens inserted, dropped, replaced or exchanged; acceptance and tree are those of Grammar.tla, and the printed tree reads back"),
 "C12": dict(trace="T_Gram", mc=[dict(module="MC_Indent", cfg="MC_Indent.cfg", cfg_thorough="MC_Indent_t.cfg", cap=dict(quick=6000, thorough=150000))],
             n=dict(quick=4000, thorough=50000),
             rule="every sequence of 4 lines of several kinds at 3 indentations (MC_Indent) plus random files of nested blocks, else and elif, one-line suites, comments and blank lines at any column, bracketed and backslash-continued lines, missing final newlines, and disturbed indentation; acceptance, nesting and tree are those of Indent.tla and Grammar.tla; errors carry a position in the file"),
 "C13": dict(trace="T_Str", mc=[dict(module="MC_Str", cfg="MC_Str.cfg", cfg_thorough="MC_Str_t.cfg", cap=dict(quick=4000))],
             n=dict(quick=6000, thorough=80000),
             rule="every literal with up to 3 (thorough: 4) bytes of an alphabet of backslash, quotes, line feed, digits and letters of escapes and a high byte between every kind of quotes, every value of up to 3 (4) bytes, plus random literals with all escapes in seven contexts and docstrings of functions at any indentation; the value read, the literal written and the value read back are compared with what StrLit.tla says the literal denotes"),
 "C06": dict(trace="T_Run", goflags=["-race"], mc=[dict(module="MC_Run", cfg="MC_Run.cfg", cfg_thorough="MC_Run_t.cfg", cap=dict(quick=300))],
             n=dict(quick=1200, thorough=20000),
             rule="runs emitted by MC_Run (all interleavings of its workers explored in the model) plus random workspaces of several packages with broken, missing and shadowed files, patterns, failing commands, -k, -stdout, numio 1 to 200, relative labels, built with the race detector; T_Run judges every file from its own commands alone, the output as an interleaving of whole files, and the exit code"),
 "C07": dict(trace="T_Run", mc=[dict(module="MC_CmdFile", cfg="MC_CmdFile.cfg", cfg_thorough="MC_CmdFile_t.cfg", cap=dict(quick=700))],
             n=dict(quick=2500, thorough=30000),
             rule="every text of MC_CmdFile that runs plus random command files, standard input and command lines with escapes, comments, blank lines, line ends, * and empty fields; T_Run splits the text as the specification says and judges what the run did"),
 "C19": dict(trace="T_Lint", mc=[dict(module="MC_Flow", cfg="MC_Flow.cfg", cfg_thorough="MC_Flow_t.cfg", cap=dict(quick=2600, thorough=20000))],
             n=dict(quick=5000, thorough=60000),
             rule="every function body emitted by MC_Flow (in which a small-step machine runs all its paths) plus random functions with nested branches, loops, functions, comprehensions, lambdas, augmented and tuple assignments in random layouts; the findings of unreachable, return-value and uninitialized are exactly the facts of Flow.tla, each at its statement and name; returns that no path reaches may be reported or not"),
 "C20": dict(trace="T_Lint", mc=[dict(module="MC_Scope", cfg="MC_Scope.cfg", cfg_thorough="MC_Scope_t.cfg", cap=dict(quick=3000, thorough=30000))],
             n=dict(quick=5000, thorough=70000),
             rule="every file emitted by MC_Scope (in which a resolver marks the binding of every use) plus random files with loads, nested functions, typed and default parameters, comprehensions, lambdas, branches, @unused marks; the findings of unused-variable and load are exactly those of Scope.tla, each at its statement and name, and fixing the load category removes exactly the unused and repeated symbols and nothing else"),
 "C21": dict(trace="T_Suppress", mc=[dict(module="MC_Suppress", cfg="MC_Suppress.cfg", cfg_thorough="MC_Suppress_t.cfg", cap=dict(quick=3500, thorough=30000))],
             n=dict(quick=4000, thorough=60000),
             rule="every program of MC_Suppress (nested blocks, calls over several lines, a suppression comment at every place; the findings and lines come from the model alone) plus random files with suppression comments inserted anywhere; T_Suppress: the findings are exactly those found without the comments minus the silenced ones, in line order, exactly the silenced ones are left after fixing, and the lines of every commented node are those of its text"),
 "C22": dict(trace="T_Fixes", mc=[dict(module="MC_Fixes", cfg="MC_Fixes.cfg", cfg_thorough="MC_Fixes_t.cfg", cap=dict(quick=2500, thorough=30000))],
             n=dict(quick=3500, thorough=60000),
             rule="every program of MC_Fixes (expressions that different fixes are about nested in each other; the model rewrites single nodes in any order and checks that this ends in the one file the specification asks for) plus random files with fixable code for any of 45 categories in all kinds of places; T_Fixes: the fixed file is the one Fix.tla gets (comments and texts included), looking for or suggesting fixes changes nothing, fixing again changes nothing, nothing fixable is left, suggestions parse and are what the fix does"),
 "C23": dict(trace="T_Macro", mc=[dict(module="MC_Macro", cfg="MC_Macro.cfg", cfg_thorough="MC_Macro_t.cfg", cap=dict(quick=1900, thorough=30000))],
             n=dict(quick=3500, thorough=60000),
             rule="every call graph of MC_Macro over two files with two symbols each (the model walks it depth first with a memory, in any order of questions and calls, and checks that the memory is never wrong) plus random projects of up to four files with loads of existing, missing, broken and foreign files, aliases, rules, nested functions, recursion; T_Macro: the functions reported by unnamed-macro are exactly those without a name parameter that reach a rule, each with a call that does, alone and with the other files, the same in every run; deprecated-function reports exactly the loaded functions whose docstring says so"),
 "C24": dict(trace="T_Buildifier", bins=["buildifier"], mc=[dict(module="MC_Buildifier", cfg="MC_Buildifier.cfg", cfg_thorough="MC_Buildifier_t.cfg", cap=dict(quick=2000, thorough=30000))],
             n=dict(quick=2500, thorough=40000),
             rule="every combination of mode, lint, diff command, format, kind of file (formatted, reformattable, broken, missing, read-only, with fixable and unfixable findings) emitted by MC_Buildifier, plus random runs of the real buildifier over trees of files, directories with -r, standard input with -path and -type, with stand-in diff commands that record what they were given; T_Buildifier: exit status, every file's bytes afterwards, what was printed for which file, and the JSON report are those of Buildifier.tla"),
 "C25": dict(trace="T_Buildifier", bins=["buildifier"], mc=[dict(module="MC_Settings", cfg="MC_Settings.cfg", cfg_thorough="MC_Settings_t.cfg", cap=dict(quick=1215, thorough=20000))],
             n=dict(quick=2500, thorough=40000),
             rule="every combination of a setting given by flag, environment, configuration file and default emitted by MC_Settings, plus random runs with settings spread over flags, environment variables, -config files and enclosing .buildifier.json files, lists of warnings with + and -; T_Buildifier: each setting takes effect from the strongest source that gives it, as shown by what the run does"),
 "C27": dict(trace="T_Places", bins=["buildifier"], mc=[dict(module="MC_Places", cfg="MC_Places.cfg", cfg_thorough="MC_Places_t.cfg", cap=dict(quick=1728, thorough=30000))],
             n=dict(quick=4000, thorough=60000),
             rule="every tree over the places of MC_Places (marks of workspaces and packages as files, directories and links, a directory of version control, a link to a directory; the model walks it with a stack and climbs it step by step) plus random trees with nested directories, links, odd names, relative, absolute and dotted spellings and working directories; T_Places: file types, files of recursive runs in order, workspace roots, packages, labels, regular files, build files of repositories, and which loaded files the real buildifier finds are those of Places.tla"),
 "C28": dict(trace="T_Tables", bins=["buildifier", "buildozer"], mc=[dict(module="MC_Tables", cfg="MC_Tables.cfg", cfg_thorough="MC_Tables_t.cfg", cap=dict(quick=1500, thorough=30000))], n=dict(quick=1500, thorough=40000),
              rule="every history of up to two table files of MC_Tables (read entry by entry into the tables in effect or into empty ones; usable and unusable files), formatted after each file, plus random table files over all tables with random sources, through the API, buildifier's flags and settings file, and buildozer; T_Tables: what is formatted, accepted and (buildozer) made a list or a string follows from the tables in effect by Custom.tla"),
 "C29": dict(trace="T_Unused", bins=["unused_deps"], mc=[dict(module="MC_Unused", cfg="MC_Unused.cfg", cfg_thorough="MC_Unused_t.cfg", cap=dict(quick=2500, thorough=40000))], n=dict(quick=3000, thorough=50000),
              rule="every behaviour of MC_Unused (a rule in the main or an external repository is written, compiled, outputs get lost or damaged, the tool reads jar by jar and entry by entry) plus random build graphs (several rules and packages, external repositories, label spellings, broken manifests, unreadable outputs, notes, sums, selects, cquery, extra flags, extra actions), run through the real unused_deps with a build tool that answers from the case; T_Unused: what is asked of the build tool and the printed commands are those of Unused.tla"),
 "C30": dict(trace="T_Walk", mc=[dict(module="MC_Walk", cfg="MC_Walk.cfg", cfg_thorough="MC_Walk_t.cfg"), dict(module="MC_Rules", cfg="MC_Rules.cfg", cfg_thorough="MC_Rules_t.cfg", cap=dict(quick=3000, thorough=40000))], n=dict(quick=2500, thorough=40000),
              rule="every tree of MC_Walk (each kind of expression in each place, every stop and replacement position) and every history of MC_Rules (set, delete, rename, read of attributes of a rule), plus random files with random stops, replacements and rule histories, run through build.Walk, WalkOnce, WalkInterruptable, WalkStatements, Edit, EditChildren, File.Rules and the Rule accessors; T_Walk: visits, ancestors, edited trees and rule answers are those of Walk.tla"),
 }
