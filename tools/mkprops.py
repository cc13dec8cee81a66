#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of truth for the property texts)."""
import json, os
CTX='source/context.cpp'; UTIL='source/util.cpp'; CFG='source/config.cpp'; MAIN='source/main.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw); P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

GEN=("Context::generate writes root module, sources, source list and module list",CTX+": Context::generate")
UPD=("update_source_file: create directories, compare with the file on disk, rewrite if different",UTIL+": update_source_file")

p("C01","A successful exit means the complete output is on disk",
 "Whenever the generator exits with status 0, every file it is responsible for (root module, all binding sources, source list, module list) exists under the prefix with exactly the bytes that an undisturbed run of the same inputs and options produces. No failing, short or delayed file operation, full disk, failing directory creation or failing allocation may yield a success status with missing, truncated or stale output.",
 ["fault_sequences","inputs","configurations"],
 "for every project, option set and sequence of failing open/write/close/mkdir/fork/allocation operations and short or interrupted transfers during a run",
 "the suite runs on a healthy disk only and only in single-file mode; no test makes an output operation or an allocation fail, and the multi-file, source-list and module-list paths are never run",
 [CTX,UTIL],[GEN,UPD],observe_at=["exit status","bytes of every file under the prefix"],hook_needed=None)

p("C02","After any crash or failed run, one clean rerun converges",
 "If a run is killed at any instant, fails, or the machine loses power leaving its output files missing, empty, truncated, zero-filled or partly overwritten, then one undisturbed rerun into the same prefix exits 0 and leaves every generated file with exactly the bytes a run into an empty prefix would have produced. Timestamps of the left-over files, and jumps of the clock between the runs, make no difference.",
 ["crash_points","fault_sequences","histories"],
 "for every crash point inside every file operation of a run (including torn writes), every loss of not-yet-synced data, and every sequence of such interrupted runs before the clean one",
 "a test would have to stop the process at one particular system call and then rerun; none does, and the number of crash points times left-over disk states is unbounded",
 [CTX,UTIL],[GEN,UPD,("content comparison (not timestamps) decides whether a source is rewritten",UTIL+": update_source_file")],observe_at=["files under the prefix after the rerun"],hook_needed=None)

p("C03","The result does not depend on what was in the output directory before",
 "A successful run leaves its output files byte-identical to those of a run into an empty prefix, whatever the prefix contained beforehand: outputs of other headers, configs, options or root modules, hand-edited, longer, shorter, empty, same-length-but-different or binary garbage versions of its own files. Files in the prefix that do not belong to this run's output are left exactly as they were.",
 ["histories","configurations","inputs"],
 "for every sequence of earlier runs, edits, truncations, corruptions, additions and deletions in the output directory",
 "every existing test starts from one fixed state of its output directory and runs once",
 [CTX,UTIL],[GEN,UPD],observe_at=["files under the prefix"],hook_needed=None)

p("C04","Regeneration leaves unchanged binding sources untouched, and only those",
 "When a run finds a binding source file (any listed source other than the root module) already holding exactly the content it is about to produce, that file is not modified in any way (same file identity, modification time and content); every binding source whose content differs is rewritten. This holds after any history of earlier runs, edits, crashes and repairs, and also when reading the old files is slow, short or interrupted.",
 ["histories","fault_sequences","configurations"],
 "for every history of edits to headers, configs and options between runs, and every pattern of short or interrupted reads of the existing files",
 "no test ever runs the generator twice into one directory, so skipping and rewriting are never observed",
 [UTIL,CTX],[UPD],observe_at=["inode, mtime and bytes of listed sources before and after the run"],hook_needed=None)

p("C05","A run never succeeds on partially read inputs",
 "If reading the configuration file or any project header fails or is cut off by an error at any point (cannot be opened, I/O error at any offset, is a directory, transient shortage of descriptors), the run either exits with a non-zero status or its output is identical to that of the undisturbed run; short or interrupted but successful reads never change the output. Neither the configuration file nor the headers are ever modified.",
 ["fault_sequences","inputs","configurations"],
 "for every configuration file and header set, and every position, kind and repetition of input faults",
 "tests read intact files from a healthy disk; a read error in the middle of a configuration file is indistinguishable from end-of-file unless it is injected",
 [CFG,MAIN],[("Config::read checks the stream after opening and parses line by line",CFG+": Config::read"),("clang diagnostics determine the exit status",MAIN+": main / tool.run")],observe_at=["exit status","output files"],hook_needed=None)

p("C06","Identical inputs give byte-identical output, independent of the environment",
 "Two undisturbed runs with the same headers, configuration and options produce byte-identical files, regardless of memory layout and the values of never-initialised memory, of process id, clock, randomness, locale, umask and other environment settings, and the size and order of earlier allocations. In particular the order of sources, bindings, includes, modules and declarations never depends on addresses.",
 ["schedules","inputs","configurations"],
 "for every heap and stack layout, every content of fresh and freed memory, every clock reading, random value, pid and environment",
 "tests run one layout (whatever the allocator of the day gives) and, for most, never compare output; address-dependent order shows only for particular layouts",
 [CTX,"source/class.cpp","source/function.cpp","source/enum.cpp","source/type.cpp",CFG],[("binders are kept in declaration order and deduplicated by id",CTX+": Context::add / sort_binders"),("ordered sets and maps keyed by strings feed the output",CTX+": generate_include_directives, create_all_nested_namespaces")],observe_at=["bytes of all output files"],hook_needed=None)

p("C07","Nothing outside the prefix is ever touched",
 "Whatever prefix spelling is given (absolute, relative, trailing slash, through a symlink, containing spaces, quotes or shell metacharacters), a run creates, modifies, truncates, renames or deletes nothing outside the prefix directory, never deletes anything inside it, never executes anything contained in a user-supplied name, and never modifies headers or configuration; inside the prefix it creates only its own output files and the directories leading to them. This also holds when any operation fails part-way.",
 ["inputs","fault_sequences","configurations"],
 "for every prefix spelling, include spelling and header name (including parent-directory references and punctuation), and every point of failure",
 "tests use one well-behaved absolute prefix and look only at the one expected file; stray effects elsewhere are never looked for",
 [UTIL,CTX],[("characters of include names are filtered before they become file names",CTX+": file_name_prefix_for_binder"),("output paths are always prefix + '/' + name",CTX+": Context::generate; "+UTIL+": update_source_file")],observe_at=["every mutating system call of the process tree","tree snapshot of everything around the prefix"],hook_needed=None)

p("C08","The source list is published only after everything it lists is final",
 "At every instant of a run, including every instant at which it could be killed, each complete line of the on-disk source list names a file that exists under the prefix. As soon as the source list on disk differs from what it was before the run because this run has begun to write its entries, every binding source and the root module of this run already have their final content.",
 ["crash_points","fault_sequences","histories"],
 "for every crash point of every run over every earlier state of the output directory",
 "the intermediate states of the output directory during a run are never looked at by any test; multi-file mode is never run at all",
 [CTX],[("source list and module list are written after all sources and the root module",CTX+": Context::generate (tail)")],observe_at=["state of the prefix at every file operation"],hook_needed=None)

p("C09","Concurrent runs sharing an output directory do not corrupt each other",
 "When several identical generator runs work on the same prefix at the same time, or several runs with different root modules (flat or single-file layout) share one prefix, then under every interleaving of their file operations all of them exit 0, and once all have finished every output file has exactly the bytes that its run produces alone. Simultaneous creation of the same directories never makes a run fail.",
 ["schedules","configurations"],
 "for every interleaving of the file operations of two or more concurrent runs, from every initial state of the prefix",
 "parallel test execution samples a handful of uncontrolled interleavings of runs that do not share files",
 [UTIL,CTX],[("directory creation tolerates existing directories",UTIL+": update_source_file"),("every rewrite truncates and then writes the whole content",UTIL+": update_source_file; "+CTX+": Context::generate")],observe_at=["exit statuses","files under the prefix after all runs ended"],hook_needed=None)

p("C10","Every failure is loud, names the file, and every run ends",
 "If an output file or directory cannot be created, opened or completely written, or the configuration file cannot be read, the run terminates with a non-zero exit status and a message that names the file or directory concerned. Every run, with or without faults and for every file-size limit, ends after a number of file operations bounded by the amount of output, and it never keeps retrying a persistently failing operation.",
 ["fault_sequences","configurations","inputs"],
 "for every persistent or transient failure of every output operation, every configuration read failure, and every value of the maximum-file-size option",
 "no test makes anything fail, and no test sets a small or zero file-size limit; non-termination and silent success cannot be seen from passing runs",
 [UTIL,CTX,CFG],[("errors are thrown with the file name in the text",UTIL+": update_source_file; "+CTX+": Context::generate; "+CFG+": Config::read"),("chunk loop consumes at least one binder per source",CTX+": Context::generate")],observe_at=["exit status","diagnostics","number of file operations"],hook_needed=None)

p("C11","Root module, sources and lists agree, and splitting loses or repeats nothing",
 "After any successful run, in whatever sequence of runs with changing layout (hierarchical, flat, single-file) and file-size limit, the source list names each generated file exactly once; the root module declares and calls each binding function exactly once and each is defined in exactly one listed file; and the created sub-modules, the module list and the modules used by the bindings agree. The sequence of bindings executed by the root module is the same for every layout and file-size limit: no class, function or enum is lost, repeated or reordered by how output is split into files.",
 ["histories","configurations","inputs"],
 "for every header layout, namespace structure, layout option and file-size limit, and every sequence of such runs into one directory",
 "the suite only uses single-file mode with a practically infinite size limit, so output is never split; splitting points depend on the sizes of generated code",
 [CTX],[("chunk loop over the sorted binders",CTX+": Context::generate"),("file and function names derived from include names plus a counter",CTX+": Context::generate, file_name_prefix_for_binder"),("all enclosing namespaces are created before use",CTX+": create_all_nested_namespaces")],observe_at=["files under the prefix"],hook_needed=None)

p("C12","The documentation generator succeeds only with complete pages, and reruns repair",
 "When the Sphinx documentation generator exits with status 0, the output directory holds a complete page for the root and for every module of the module list, each listing exactly its direct sub-modules, and the summary script if requested; other files in the directory are left alone, and in an initially empty directory nothing else is created. Any failing or cut-off read, write or directory creation makes it exit non-zero instead. After any crash, failure or stale left-over, one undisturbed rerun brings every such page to what a run into an empty directory writes, and simultaneous runs into one not-yet-existing directory do not make each other fail.",
 ["fault_sequences","crash_points","schedules","inputs"],
 "for every module list, every fault or crash point of the script's file operations, and every interleaving of two runs",
 "the script has no tests at all",
 ["sphinx-doc-generator.py"],[("pages are written with the whole content in one go and exceptions propagate","sphinx-doc-generator.py: generate_rst_sphinx_files, main")],observe_at=["exit status","files in the output directory"],hook_needed=None)

p("C13","The installer never mistakes an interrupted install for a complete one",
 "If the build script is killed or any of its downloads, checkouts, configuration or build steps fails at any point, then a later undisturbed invocation with the same options completes the installation from whatever was left behind, and exits 0 only if the tool executable was built completely from the requested LLVM version and source revision and the pinned pybind11 revision is checked out. An invocation over an already complete install of the same revision, version and compiler runs no LLVM download and no build step; a change of any of these leads to a rebuild.",
 ["crash_points","fault_sequences","histories"],
 "for every kill point and failing step of every invocation, and every sequence of invocations with changing source revision, LLVM version and compiler",
 "the script has no tests; its steps need the network and hours of building, so interruption at each step is never tried",
 ["build.py"],[("signature file written only after a successful build decides whether to skip","build.py: install_llvm_tool"),("version marker next to the unpacked sources decides whether to download again","build.py: install_llvm_tool"),("checkout of the pinned revision","build.py: install_pybind11")],observe_at=["exit status","installed files","tool invocations"],hook_needed=None)

p("C14","Generated code keeps interpreter-lock discipline under every thread schedule",
 "In generated bindings, whenever C++ code on any thread calls a virtual function that Python may override, the interpreter is only looked at while that thread holds the interpreter lock, and the lock state is restored when the call returns, whether or not an override exists and whatever the return type. Where a call guard is configured, every bound function and method runs its C++ body under that guard, so a bound call that waits for another thread's callback into Python makes progress under every schedule.",
 ["schedules","inputs","configurations"],
 "for every interleaving of interpreter threads and C++ threads through the generated trampolines and bound functions, for every virtual-function signature and guard configuration",
 "the suite compares generated text for a few headers and never runs generated code on more than one thread",
 ["source/class.cpp","source/function.cpp"],[("trampoline bodies acquire the lock before looking up overrides","source/class.cpp: call_back_function_body_template"),("call guard is appended to bound functions","source/function.cpp: bind_function")],observe_at=["simulated interpreter: lock owner at every access, deadlock detection"],hook_needed=None)

p("C15","The test driver succeeds only if self-tests passed on a complete installation",
 "The build-and-test driver exits with status 0 only if, in that invocation, the self-test program was run with a completely built tool of the current source revision and the requested LLVM version, compiler, GCC prefix and build type, and with the complete pinned pybind11 headers (or with the tool and headers given on the command line), and the self-tests ended successfully. Any step that fails, is killed, ends by a signal or cannot be started, including the self-tests themselves, makes it exit non-zero, and the self-tests are never run against an incomplete or outdated installation. However much output the steps produce, the driver ends; and after any interrupted invocations one undisturbed invocation succeeds.",
 ["fault_sequences","crash_points","histories","configurations"],
 "for every failing, killed or noisy step, every failing system call, and every history of interrupted invocations with changing revision, versions and options",
 "the driver is what runs the tests, nothing tests it; its steps need the network and hours of building",
 ["build-and-run-tests.py","build.py"],[("driver passes the installed tool and headers to the self-tests","build-and-run-tests.py: main, run_binder_self_tests"),("status of every external command ends the driver","build.py: execute")],observe_at=["exit status","arguments and moment of the self-test run","tool invocations"],hook_needed=None)

p("C16","Import registers every class after its bases and enclosing class, once",
 "When a run has exited 0, importing the module built from the output registers types in an order the interpreter accepts: executing the binding functions in the order the root module calls them, every class is registered after all of its bound base classes and after the class it is a member of, every bound base class is registered at all, and no type and no name within one scope is registered twice; and finding that order always comes to an end. This holds for every inheritance graph, including template instances that derive from their arguments and are instantiated far from their declaration, in every memory layout, however the output is split into files, and after any history of earlier, also interrupted, runs into the same directory.",
 ["programs","configurations","histories","crash_points"],
 "for every inheritance graph, memory layout, split of the output and history of runs",
 "the suite compares text for a few small hierarchies and hardly ever imports the result; wrong order shows only when the module is imported",
 ["source/context.cpp","source/class.cpp"],[("binders are sorted by the bases they depend on","source/context.cpp: Context::sort_binders"),("bases are requested and recorded as dependencies","source/class.cpp: ClassBinder::maybe_base_classes"),("member classes are bound inside the enclosing class","source/class.cpp: ClassBinder::bind_nested_classes"),("each declaration gets one binder","source/context.cpp: Context::add")],observe_at=["generated files: sequence of registrations executed by the root module"],hook_needed=None)

NA=[
("N01","Selection: exactly the requested declarations are bound",
 "A declaration is bound if and only if the combination of bind/skip rules from the command line and configuration requests it or another bound declaration depends on it, with more specific rules overriding more general ones.",
 ["inputs","configurations"],"for every header set and every combination of rules",
 "tests sample a few rule combinations",["source/config.cpp","source/class.cpp","source/function.cpp","source/enum.cpp"],[("rule lookup","source/config.cpp: is_*_requested")]),
("N02","Generated code compiles and imports for every accepted header set",
 "Whenever the generator exits 0 on headers that compile, the generated files compile against pybind11 with the same headers and the resulting module imports.",
 ["inputs","programs","configurations"],"for every valid C++ header set in the supported language subset",
 "tests compile a fixed list of headers",["source/class.cpp","source/function.cpp","source/type.cpp"],[("code templates","source/class.cpp, source/function.cpp")]),
("N03","Bound calls behave like the C++ calls they wrap",
 "Calling a bound function, constructor, method, operator or attribute from Python has the effect and result of the corresponding C++ call with the declared default arguments, overloads, const-ness and return-value policy.",
 ["inputs","programs"],"for every signature and argument",
 "tests call few generated functions",["source/function.cpp","source/class.cpp"],[("bind_function","source/function.cpp")]),
("N05","Configuration grammar: directives take effect, malformed lines are rejected",
 "Every directive documented for the configuration file has its documented effect, and a line that is not a comment, blank or well-formed directive makes the run fail.",
 ["inputs","configurations"],"for every configuration text",
 "tests sample a few directives",["source/config.cpp"],[("Config::read parser","source/config.cpp: Config::read")]),
("N06","Python names of bound entities are unique functions of their C++ names",
 "Distinct template instantiations and declarations bound into one module get distinct Python names that are a function of their C++ names only.",
 ["inputs","programs"],"for every set of instantiations",
 "tests sample few instantiations",["source/util.cpp","source/type.cpp"],[("mangle_type_name / python_class_name","source/util.cpp")]),
]
for id,t,s,o,tx,w,f,m in NA: p(id,t,s,o,tx,w,f,m)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
