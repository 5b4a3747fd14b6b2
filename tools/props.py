PROPS = [
 dict(id="C01", title="Line endings are normalised without losing or inventing text",
  statement="For every text, reading it replaces exactly the carriage returns that directly precede a newline and changes nothing else, and the text is reported as DOS exactly when at least one was replaced. Writing text back with the DOS convention puts a carriage return before every newline, with the Unix convention leaves it alone, so any text with uniform line endings survives a round trip byte for byte. The result is always valid UTF-8.",
  over=["inputs"], forall="every UTF-8 text: mixed, lone and doubled terminators, at any distance from each other and at either end",
  why="Four hand-written strings; nothing covers lone CRs, CR CR LF, multi-byte neighbours, or runs longer than the byte searcher's blocks.",
  files=["crates/stdext/src/line_endings.rs"],
  mech=[("in-place compaction of CRLF", "crates/stdext/src/line_endings.rs normalize"), ("writing back", "crates/stdext/src/line_endings.rs map")],
  observe=["normalised text, reported convention, text mapped back"],
  technique="TLA+/TLC: LineEndings.tla enumerates all short texts; every one is replayed into the code",
  note="Exhaustive over texts up to 6 (thorough 8) characters from CR, LF, one-byte and multi-byte characters and long runs. Trusts TLC and the expansion of abstract characters to real ones."),
 dict(id="C02", title="Reload requests are never lost and at most one reload runs at a time",
  statement="However requests, starts and completions of the package reload interleave, at most one reload is in progress, and none starts before the previous one completed. A request made at any moment, including while a reload is running, is never lost: the next start after it serves the newest request with its reason and arguments, and once served it is not served again. The result of the most recently completed reload is the one reported.",
  over=["histories", "schedules"], forall="every sequence of requests, polls and completions",
  why="No test exercises the queue; the server tests never request a reload while another runs.",
  files=["crates/aptos-language-server/src/op_queue.rs", "crates/aptos-language-server/src/main_loop.rs", "crates/aptos-language-server/src/reload.rs"],
  mech=[("single pending slot and running flag", "crates/aptos-language-server/src/op_queue.rs")],
  observe=["what each poll returns", "whether an operation is requested / running", "last result"],
  technique="TLA+/TLC: OpQueue.tla model-checked (safety and liveness); all transitions and random walks replayed into the code",
  note="All histories with up to 4 requests checked in the model; every edge of the 3-request graph and 2000 (thorough 20000) random walks of 40 steps replayed."),
 dict(id="C03", title="The server always works on the client's text, in the client's positions",
  statement="For every history of opening, editing, saving and closing documents and of files changing on disk, the text the server works on is, once it has settled, the client's text for an open document and the disk content for any other file, and a deleted file is gone; nothing written on disk shows through an open document. Edits are applied in order, each to the text the previous one left, a whole-document replacement at any place in a batch included. Positions in both directions count lines and columns of the text in the encoding negotiated with the client (the first of utf-8 and utf-32 in the client's list, otherwise utf-16), and text sent to the client uses the document's own line terminator.",
  over=["histories", "inputs", "configurations"], forall="every document history, batch of edits, text with characters of any width and both line terminators, and list of encodings",
  why="One test applies a dozen fixed edits in UTF-16; no test opens, closes or deletes files, uses the other encodings or CRLF documents.",
  files=["crates/aptos-language-server/src/lsp/utils.rs", "crates/aptos-language-server/src/lsp/from_proto.rs", "crates/aptos-language-server/src/lsp/to_proto.rs", "crates/aptos-language-server/src/handlers/notification.rs", "crates/aptos-language-server/src/opened_files.rs", "crates/aptos-language-server/src/file_changes.rs", "crates/aptos-language-server/src/main_loop.rs", "crates/base-db/src/change.rs"],
  mech=[("batch application", "crates/aptos-language-server/src/lsp/utils.rs apply_document_changes"), ("open documents shadow the disk", "crates/aptos-language-server/src/main_loop.rs load_files_into_vfs"), ("re-read on close", "crates/aptos-language-server/src/handlers/notification.rs")],
  observe=["the formatting answer for the document (whole text and its end position)", "negotiated encoding"],
  technique="TLA+/TLC: DocText.tla (edits, encodings) and DocSync.tla (documents and disk; DocSyncMech.tla refines it) replayed into the running server",
  note="All single edits of texts up to 3 characters plus random batches in each encoding; every edge of the one-file graph and random histories of three files. Positions outside a line are left out except at the end of the document."),
 dict(id="C04", title="Every request gets exactly one answer, and never about an older text",
  statement="However requests, edits, cancellations and shutdown interleave, every request is answered exactly once. A successful answer describes the document as of the moment the request was made (or, for requests the server retries, some later moment), never an older one; an answer saying that the content was modified, or that the server cancelled, is given only if the document was edited after the request, or the project was still loading when it was made. A cancelled request is answered as cancelled, without waiting for its work, unless its answer was already sent. Unknown methods and malformed parameters are refused as such without harm to the session, every request after shutdown is refused as invalid, and exit then ends the process successfully.",
  over=["schedules", "histories"], forall="every interleaving of requests of every kind, edits, cancels and shutdown, and every worker timing",
  why="The server's tests send one request at a time to an unchanging document.",
  files=["crates/aptos-language-server/src/handlers/dispatch.rs", "crates/aptos-language-server/src/main_loop.rs", "crates/aptos-language-server/src/global_state.rs", "crates/aptos-language-server/src/task_pool.rs", "crates/ide/src/lib.rs"],
  mech=[("dispatch, retry and error mapping", "crates/aptos-language-server/src/handlers/dispatch.rs"), ("request registry", "crates/aptos-language-server/src/global_state.rs")],
  observe=["sequence of messages at the client"],
  technique="TLA+/TLC: Lsp.tla model-checked (safety, liveness); sessions recorded from the running server are validated against it by TLC",
  note="The model is exhaustive for 2 requests of all kinds with edits and cancels; about 1000 (thorough 6000) scripted sessions of 25 steps are recorded and judged. Worker timing in the replay is whatever the machine gives."),
 dict(id="C05", title="The package graph is exactly the closure of declared dependencies",
  statement="For every set of manifests in the workspace folders and the git cache, loading finds every manifest once and gives each readable package exactly the packages reachable through its dependencies and dev-dependencies, each once and nearest first, whatever cycles, diamonds and nesting there are; of several reachable packages with the same name only the first met is kept. A dependency without a manifest is reported as missing for the package that declares it, an unreadable manifest is reported as an error, and neither affects other packages. Everything reached through a git dependency is treated as external, and inside an aptos-core checkout dependencies are resolved only for the framework folders.",
  over=["configurations", "inputs"], forall="every finite file system of manifests, dependency edges (local, git, missing), names, addresses, and workspace folders",
  why="Unit tests parse two manifests; no test loads a graph with cycles, duplicate names, broken manifests or git dependencies.",
  files=["crates/project-model/src/aptos_package/load_from_fs.rs", "crates/project-model/src/lib.rs", "crates/project-model/src/move_toml.rs", "crates/project-model/src/dep_graph.rs"],
  mech=[("breadth-first manifest collection", "crates/project-model/src/aptos_package/load_from_fs.rs"), ("discovery", "crates/project-model/src/lib.rs"), ("graph with file ids", "crates/project-model/src/dep_graph.rs")],
  observe=["discovered manifests", "loaded packages with dependency lists, kinds, missing dependencies, named addresses", "package graph"],
  technique="TLA+/TLC: PackageGraph.tla checked (closure, order, names) and every generated file system written out and loaded by the code",
  note="All file systems of 3 packages with one dependency each (quick: 5000 of 16000) and random edit histories of 8 packages; folder names are representatives."),
 dict(id="C06", title="Every file belongs to exactly one package, the innermost that contains it",
  statement="Every file under a loaded package's folder is owned by exactly one package, the one with the innermost folder containing the file, and files outside every package folder belong to none. A file is editable project code exactly when its owner is a local package and library code otherwise, and exactly the folders of local packages are watched for changes. A file opened on its own is answered for by the manifest of the nearest folder having one, only when the file lies in that folder's sources, tests or scripts.",
  over=["configurations", "inputs"], forall="every set of loaded packages, nested or not, local or external, and every file path",
  why="No test partitions files of nested packages or looks at which folders are watched.",
  files=["crates/project-model/src/project_folders.rs", "crates/project-model/src/lib.rs", "crates/project-model/src/aptos_package.rs", "crates/base-db/src/package_root.rs"],
  mech=[("file sets per package root", "crates/project-model/src/project_folders.rs"), ("discover_for_file", "crates/project-model/src/lib.rs")],
  observe=["owner and kind of each file", "folders to load and watch", "manifest for a lone file"],
  technique="TLA+/TLC: PackageGraph.tla gives owner, kind, watch set; replayed into the code",
  note="Same file systems as C05; files probed in four places of every folder."),
 dict(id="C08", title="Any text at all gets a lossless tree, cut into the right tokens",
  statement="For every text, however broken, parsing terminates without failing and gives a tree whose tokens, in order, are exactly the text: nothing lost, invented or moved, every byte in one token, and every complaint lies inside the text. The tokens are the ones Move has: comments nest and may hold anything, documentation comments are told from plain ones, numbers, strings, byte and hex literals, labels, words and punctuation are cut at the longest match, and characters Move does not know are single bad tokens. The tree is a function of the text alone, and a text with unbalanced brackets is never accepted without a complaint.",
  over=["inputs"], forall="every UTF-8 text, from arbitrary character sequences to programs damaged by typing",
  why="The parser tests hold about two hundred fixed files; none contains arbitrary text, and non-ASCII text occurs nowhere.",
  files=["crates/syntax/src/parse/lexer.rs", "crates/syntax/src/parse/lexer/move_model.rs", "crates/syntax/src/parse/parser.rs", "crates/syntax/src/parse/text_token_source.rs", "crates/syntax/src/parse/event.rs", "crates/syntax/src/parse/grammar.rs"],
  mech=[("tokenising", "crates/syntax/src/parse/lexer.rs"), ("events to tree, trivia", "crates/syntax/src/parse/event.rs"), ("error recovery", "crates/syntax/src/parse/parser.rs")],
  observe=["kind and text of every leaf of the tree", "text of the whole tree", "ranges of complaints"],
  technique="TLA+/TLC: Lexer.tla enumerates short texts over seven alphabets with their tokens; programs of Grammar.tla are damaged; all parsed by the code",
  note="Exhaustive up to 3-6 (thorough 4-7) characters per alphabet, random mixed texts of 16, and about 29000 (thorough 110000) damaged programs. Nesting is bounded: stack exhaustion is out of scope."),
 dict(id="C09", title="Every well-formed program parses without complaint to the tree it means",
  statement="Every program of the Move grammar (modules, scripts, address blocks, structs, enums, functions of all kinds, constants, uses, friends, attributes, all statements, expressions, patterns and types, and all of the specification language: spec blocks, schemas, includes, applies, pragmas, quantifiers, lemmas and proofs) is accepted without complaint, whatever white space and comments stand between its tokens. Its tree is the one the grammar prescribes: operators nest by precedence and associativity, prefix and postfix operators, casts and ranges bind as specified, words with a special meaning keep it only where they have it, and `<` opens type arguments exactly where it does.",
  over=["inputs"], forall="every program derivable from the grammar, and every placement of trivia",
  why="The parser tests compare a fixed set of files with recorded trees; no combination outside of them is examined.",
  files=["crates/syntax/src/parse/grammar.rs", "crates/syntax/src/parse/grammar/expressions.rs", "crates/syntax/src/parse/grammar/expressions/atom.rs", "crates/syntax/src/parse/grammar/expressions/blocks.rs", "crates/syntax/src/parse/grammar/items/adt.rs", "crates/syntax/src/parse/grammar/items/fun.rs", "crates/syntax/src/parse/grammar/items/use_item.rs", "crates/syntax/src/parse/grammar/items/item_spec.rs", "crates/syntax/src/parse/grammar/paths.rs", "crates/syntax/src/parse/grammar/types.rs", "crates/syntax/src/parse/grammar/type_args.rs", "crates/syntax/src/parse/grammar/patterns.rs", "crates/syntax/src/parse/grammar/specs/schemas.rs", "crates/syntax/src/parse/grammar/specs/predicates.rs", "crates/syntax/src/parse/grammar/specs/quants.rs", "crates/syntax/src/parse/parser.rs"],
  mech=[("binding powers", "crates/syntax/src/parse/grammar/expressions.rs"), ("statements", "crates/syntax/src/parse/grammar/expressions/blocks.rs"), ("contextual keywords", "crates/syntax/src/parse/parser.rs")],
  observe=["tree without trivia", "number of complaints"],
  technique="TLA+/TLC: Grammar.tla derives programs together with their trees (operators exhaustively, the rest at random); each is parsed by the code",
  note="All operator expressions with up to 4 (thorough 5) non-minimal choices and about 35000 (thorough 100000) random renderings of whole programs. Some corners the parser shares with upstream are not generated; listed in DESIGN.md."),
 dict(id="C10", title="Every name leads to the declaration the language says, or to none",
  statement="Every name in a program leads to exactly the declaration Move's scoping rules give it: the innermost enclosing declaration of its name and kind which precedes it, be it a local, parameter, type parameter, loop or match binding, label, let of a spec block, item of the module or its spec, import or alias; through a path, the member of exactly the module, enum or address it names. It leads there only if visible from that place: in the same package or a dependency, public, friend, package or private as declared, and not test-only or spec-only unless the place is so too. A name which nothing visible bears leads nowhere and is reported as unresolved, and no other name is.",
  over=["programs"], forall="every program over several packages and modules, and every name in it",
  why="The resolution tests mark one name in one small file each; shadowing, visibility, imports and test or spec scopes are never combined.",
  files=["crates/lang/src/nameres/name_resolution.rs", "crates/lang/src/nameres/path_resolution.rs", "crates/lang/src/nameres/scope_entries_owner.rs", "crates/lang/src/nameres/use_speck_entries.rs", "crates/lang/src/nameres/is_visible.rs", "crates/lang/src/nameres/scope.rs", "crates/lang/src/nameres/namespaces.rs", "crates/lang/src/nameres/path_kind.rs", "crates/lang/src/nameres/node_ext.rs", "crates/ide/src/goto_definition.rs", "crates/ide-diagnostics/src/handlers/unresolved_reference.rs"],
  mech=[("walking the scopes", "crates/lang/src/nameres/name_resolution.rs"), ("visibility", "crates/lang/src/nameres/is_visible.rs"), ("imports", "crates/lang/src/nameres/use_speck_entries.rs")],
  observe=["goto-definition at every name", "unresolved-reference diagnostics of every file"],
  technique="TLA+/TLC: Names.tla writes random programs from left to right, carrying the open scopes, and gives the targets of every name; the code is asked at each of them",
  note="About 40000 (thorough 590000) names in programs of 4-5 modules in 3 packages. Names are few, so that they collide. Macros, function values and pattern types inferred from the value are not generated."),
 dict(id="C11", title="Usages are exactly the places leading to a declaration; renaming keeps meaning",
  statement="The usages of a declaration, asked for at it or at any of its usages, are its declaration and exactly the places whose name leads to it, in whichever file and package they are, through imports and paths alike, without missing or inventing one. Renaming it to an unused name gives the program in which the declaration and those usages are spelled with the new name and everything else is untouched: uses under an alias keep the alias, and field shorthands in literals and patterns are expanded so that field and variable keep what they were.",
  over=["programs"], forall="every program over several packages, every declaration in it, and every place from which it is asked for",
  why="The rename and usages tests hold a handful of single-file programs; search scopes across files and packages, shorthands and aliases are hardly touched.",
  files=["crates/ide-db/src/search.rs", "crates/ide-db/src/rename.rs", "crates/ide-db/src/defs.rs", "crates/ide/src/references.rs", "crates/ide/src/rename.rs", "crates/lang/src/nameres/name_resolution.rs"],
  mech=[("search scope and text search", "crates/ide-db/src/search.rs"), ("edits of a rename", "crates/ide-db/src/rename.rs"), ("what a name stands for", "crates/ide-db/src/defs.rs")],
  observe=["find-references", "texts of all files after a rename"],
  technique="TLA+/TLC: the programs of Names.tla with the targets of all names give the usages of each declaration and the renamed texts; compared with the code's",
  note="About 8000 (thorough 140000) questions. The new name is one nobody uses; capture by existing names is not judged. Labels are not looked for (nor does the code)."),
 dict(id="C12", title="What the analysis says depends on the project as it is, not on its past",
  statement="After any sequence of changes -- texts edited, files and specification files created and removed, manifests edited, removed and restored, with or without questions asked in between -- every answer (diagnostics, definitions, usages, types, hover, highlighting, outline) is the one given by an analysis which was started on the same project afresh. In particular each file belongs to its package, sees exactly the files of its package and of its dependencies, is seen exactly from those which depend on it, is tied to exactly the files of its package with its name (with or without `.spec`), and a dependency is reported missing exactly while it is.",
  over=["histories", "programs"], forall="every sequence of changes of the project, every question, wherever questions were asked before",
  why="The tests load a project once and ask once; what an earlier answer or an earlier state of the project leaves behind in the incremental database needs a history.",
  files=["crates/base-db/src/inputs.rs", "crates/base-db/src/change.rs", "crates/base-db/src/source_db.rs", "crates/ide-db/src/root_db.rs", "crates/ide-db/src/apply_change.rs", "crates/lang/src/hir_db.rs", "crates/project-model/src/dep_graph.rs", "crates/project-model/src/project_folders.rs"],
  mech=[("inputs of the database", "crates/base-db/src/inputs.rs"), ("changes", "crates/base-db/src/change.rs"), ("derived facts", "crates/lang/src/hir_db.rs")],
  observe=["all answers of the analysis after each change", "package, related files, files seen and seen from, addresses, missing dependencies of every file"],
  technique="TLA+/TLC: History.tla walks the workspaces of four packages with texts of Names.tla and says what belongs together; each walk is replayed in one database and compared with the specification and with a database loaded afresh",
  note="About 6000 (thorough 150000) answers after up to 8 changes. The incremental engine is the sandbox's stand-in for salsa (see Shims): it keeps, invalidates and re-verifies results as salsa does, but has no durabilities. Not in the histories: cancelled questions (C04), the file watcher (C18)."),
 dict(id="C15", title="Unused imports are told exactly, and repairs keep what names lead to",
  statement="An import is reported as unused exactly if no name in its reach (module, its specs, or block) leads through it, and as too broad exactly if all names which lead through it are in test code. Imports of several items are judged item by item. The offered repair removes (or makes test_only) exactly the imports reported and leaves every other import and all the rest of the text. Organizing the imports of a file removes all unused ones, makes test_only all those too broad, and keeps and invents nothing else. After any of these repairs every name of the package leads to the declaration it led to before, and nothing of this panics.",
  over=["programs"], forall="every program over several packages, every import in it, and every repair offered",
  why="The tests hold small programs with one import each; several findings in a statement, specs and tests using the same import, and what names lead to after a repair are not covered.",
  files=["crates/ide-diagnostics/src/handlers/unused_import.rs", "crates/ide-diagnostics/src/handlers/unused_import/use_items.rs", "crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs", "crates/ide-diagnostics/src/handlers/reduced_scope_import.rs", "crates/lang/src/hir_db/use_items_ext.rs", "crates/lang/src/nameres/use_speck_entries.rs", "crates/syntax/src/syntax_editor/node_ext/use_stmt.rs", "crates/syntax/src/syntax_editor/edit_algo.rs"],
  mech=[("imports hit", "crates/ide-diagnostics/src/handlers/unused_import/use_items.rs"), ("too broad imports", "crates/ide-diagnostics/src/handlers/reduced_scope_import.rs"), ("organizing", "crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs")],
  observe=["unused-import and too-broad-scoped-import diagnostics", "texts after each fix and after organizing", "goto-definition at the names in the repaired program"],
  technique="TLA+/TLC: Names.tla says for every name which imports it leads through; reports, repaired texts, and where names lead afterwards are compared with the code's",
  note="About 6500 (thorough 73000) answers. Not said: imports for tests used in specifications only, imports of a spec file used by code, names which exist but lead nowhere. Imports of scripts are not generated."),
 dict(id="C16", title="Every expression has the type the language gives it; type errors are exact",
  statement="Every expression of a well-typed program has exactly the type which the typing rules of the language give to it: through variables, fields, references, generic functions and methods with inferred or explicit type arguments, structs and enums with generics, patterns in their binding modes, lambdas, control flow which may leave early, indexing, and integer literals which take their type from wherever it is prescribed. Such a program is never reported to have an error. A program with one expression whose type does not fit where it stands is reported with exactly one error, at that expression, which names the type it has and the type prescribed.",
  over=["programs"], forall="every well-typed program, and every program with one mistake, and every expression in them",
  why="The type tests hold small programs with one marked expression each; how unification, literals, references, generics and control flow work together needs programs where they are combined at will.",
  files=["crates/lang/src/types/inference/ast_walker.rs", "crates/lang/src/types/inference/ast_walker/lambda_expr.rs", "crates/lang/src/types/inference/combine_types.rs", "crates/lang/src/types/inference.rs", "crates/lang/src/types/unification.rs", "crates/lang/src/types/patterns.rs", "crates/lang/src/types/ty_db.rs", "crates/lang/src/types/substitution.rs", "crates/lang/src/types/fold.rs", "crates/lang/src/types/render.rs", "crates/ide-diagnostics/src/handlers/type_checking.rs"],
  mech=[("types of expressions", "crates/lang/src/types/inference/ast_walker.rs"), ("unification", "crates/lang/src/types/inference/combine_types.rs"), ("patterns", "crates/lang/src/types/patterns.rs"), ("reports", "crates/ide-diagnostics/src/handlers/type_checking.rs")],
  observe=["types of all expressions", "all diagnostics which are errors"],
  technique="TLA+/TLC: Types.tla states the typing rules as a machine which writes programs together with the types of all their expressions, and makes at most one mistake; the code's types and errors are compared",
  note="1500 (thorough 20000) programs of about 70 marked expressions; half of them with a mistake. Literals nothing prescribes a type for, specifications, abilities, and the types of loops are not judged."),
 dict(id="C17", title="Questions about any text are answered soundly; undone edits leave no trace",
  statement="Whatever an author does to a program (deletes, repeats, swaps, replaces or puts in tokens anywhere, leaving it broken in any way), every question of an editor about it (diagnostics with all their fixes, types, outline, highlighting, inlay hints, runnables, code lenses, imports, definitions, references, rename, hover, signature help, completion with its edits, selection) gets an answer instead of a panic, and the answer is one an editor can use: places lie within the texts, highlighted places are in order, not empty and apart from each other, names lie within their symbols and symbols within their parents, what is renamed, hovered, selected or completed is what is at the cursor. Once all edits are undone, in any number of steps, every answer is the one given at first.",
  over=["inputs", "histories"], forall="every program, every history of edits which breaks it and leads back, every question at every place",
  why="The tests ask about texts which are complete but for the marked place; most texts a server sees are those nobody would write into a test.",
  files=["crates/syntax/src/ast/node_ext/param.rs", "crates/syntax/src/ast/syntax_factory/paths.rs", "crates/ide/src/lib.rs", "crates/ide/src/rename.rs", "crates/ide/src/hover.rs", "crates/ide/src/extend_selection.rs", "crates/ide/src/syntax_highlighting.rs", "crates/ide/src/inlay_hints.rs", "crates/ide/src/annotations.rs", "crates/ide/src/runnables.rs", "crates/ide-completion/src/lib.rs", "crates/ide-diagnostics/src/handlers/unused_variables.rs", "crates/ide-db/src/symbol_index.rs", "crates/lang/src/types/patterns.rs", "crates/lang/src/types/unification.rs"],
  mech=[("questions", "crates/ide/src/lib.rs Analysis"), ("completion", "crates/ide-completion/src/lib.rs"), ("diagnostics", "crates/ide-diagnostics/src/lib.rs"), ("inference on broken code", "crates/lang/src/types/inference/ast_walker.rs")],
  observe=["answers to 23 kinds of questions after every edit", "panics", "answers before the edits and with all of them undone"],
  technique="TLA+/TLC: Typing.tla, model-checked to lead back to its start, makes histories of edits; they are replayed, token by token, into the analysis of programs written by Types.tla, Names.tla and Grammar.tla",
  note="280 (thorough 2200) histories of up to 4 edits and their undoing; about 85000 (thorough 700000) questions."),
 dict(id="C18", title="After any change of the project the server agrees with one started afresh",
  statement="However workspace folders are opened and closed, manifests written, broken and deleted, and sources created, rewritten and deleted, the running server settles in the state a server started at that moment would have: the same packages, each seeing the modules of exactly its own and its dependencies' files. A broken manifest does not take away packages which were loaded before, and is reported in the server's health; a project without manifests is reported too. The client is asked to watch exactly the sources and manifests of the loaded packages, and every progress report is created, begun, advanced and ended in order.",
  over=["histories"], forall="every history of folder, manifest and source changes, over clients with and without dynamic watching and relative patterns",
  why="The server tests start on a fixed project and never change its manifests, files or folders.",
  files=["crates/aptos-language-server/src/reload.rs", "crates/aptos-language-server/src/main_loop.rs", "crates/aptos-language-server/src/global_state.rs", "crates/aptos-language-server/src/handlers/notification.rs", "crates/base-db/src/change.rs", "crates/base-db/src/inputs.rs", "crates/lang/src/hir_db.rs", "crates/project-model/src/aptos_package/load_from_fs.rs"],
  mech=[("reload, switch of packages, watching", "crates/aptos-language-server/src/reload.rs"), ("which changes reload", "crates/aptos-language-server/src/global_state.rs process_file_changes"), ("package of a file", "crates/base-db/src/inputs.rs")],
  observe=["server status", "unresolved references of every source", "watch registrations", "progress notifications", "a second server started at the end"],
  technique="TLA+/TLC: Workspace.tla model-checked; its random histories are replayed into the running server",
  note="All states of 2 packages (thorough 3) in the model; 400 (thorough 6000) histories of 12 steps over 3 packages in 2 folders. The client reports every change of a file."),
 dict(id="C19", title="The command line reports every problem once and repairs only what it is asked to",
  statement="For every workspace, `diagnostics` on it, on a package of it or on a file prints each problem of each Move file there, and of no other file, exactly once, with its code, severity, line and range, leaving out exactly those which the options for kinds and codes leave out; it fails exactly when an error is among what it prints, or when nothing can be checked. A problem is there because of what the file and the packages it can see say, so the report on the workspace is the sum of the reports on its files. With fixes it changes exactly the places of the problems it would show and may repair, to the intended text, keeps every other byte including line endings, and a second run finds nothing more to repair.",
  over=["configurations", "inputs", "histories"], forall="every workspace of packages and files, and every combination of path, kind, disable, enable-only and fix options",
  why="No test runs the command line; the diagnostics tests look at one construct and one kind of diagnostic at a time.",
  files=["crates/aptos-language-server/src/cli/diagnostics.rs", "crates/ide-diagnostics/src/lib.rs", "crates/ide-diagnostics/src/diagnostic.rs", "crates/ide-diagnostics/src/config.rs", "crates/ide-diagnostics/src/handlers.rs", "crates/syntax/src/parse.rs", "crates/ide-db/src/assist_context.rs"],
  mech=[("which diagnostics are shown and repaired", "crates/aptos-language-server/src/cli/diagnostics.rs"), ("codes and severities", "crates/ide-diagnostics/src/diagnostic.rs"), ("each problem and its repair", "crates/ide-diagnostics/src/handlers")],
  observe=["everything printed", "exit status", "every file afterwards"],
  technique="TLA+/TLC: Cli.tla (catalogue of constructs with their problems and repairs, workspaces, options) generates histories replayed into the command line",
  note="About 1600 (thorough 40000) histories of 8 steps over 4 packages and 7 files, with 38 constructs. Problems of the catalogue are representatives of the diagnostics, one to three of most kinds."),
 dict(id="C20", title="Completion offers exactly what may be written at a place",
  statement="At every place of a program where a name can be written -- a value, a call, a type, a schema, a module or a member after `::`, an item or module of an import, a label, a field of a struct literal, of a pattern or after `.`, the item of a specification -- completion offers exactly the declarations which the language lets that place name, under the names they have there (aliases included), and, to be imported, exactly those of other modules which are visible there and not in scope. Accepting an offer writes the name the offer stands for, keeps the text free of syntax errors and, if it brings an import, the name then leads to the declaration offered and every other name leads to where it led before.",
  over=["programs"], forall="every program over several packages, every place in it where a name can be written",
  why="The completion tests look at one place in a small text and at one or two of the offers; what is left out and what is offered in excess across scopes, packages, specs, tests and visibilities is seen only when the whole list is known.",
  files=["crates/ide-completion/src/lib.rs", "crates/ide-completion/src/completions/reference/paths.rs", "crates/ide-completion/src/completions/reference/method_or_field.rs", "crates/ide-completion/src/completions/reference/labels.rs", "crates/ide-completion/src/render/function.rs", "crates/ide-completion/src/item.rs", "crates/lang/src/nameres/path_resolution.rs", "crates/lang/src/nameres/is_visible.rs", "crates/lang/src/nameres/scope.rs"],
  mech=[("offers of paths", "crates/ide-completion/src/completions/reference/paths.rs"), ("entries of scopes", "crates/lang/src/nameres/scope_entries_owner.rs"), ("visibility", "crates/lang/src/nameres/is_visible.rs")],
  observe=["completion lists with kinds, texts and additional edits", "texts after accepting an offer", "goto-definition at the name accepted"],
  technique="TLA+/TLC: Names.tla says for every place of its programs which declarations may be named there and which may be imported; the completion lists and the texts after accepting are compared",
  note="250 (thorough 3000) programs, about 28000 (thorough 330000) places. Not judged: keywords, snippets and built-in items; variants of enums offered in expressions for an expected type; the order of the offers; `lit` positions."),
 dict(id="C21", title="Suggested rewritings are told exactly and keep what the program means",
  statement="In the body of a well-typed program exactly those constructs are reported which can be written better: calls of methods by path, vector borrows which can be an index, global borrows which can be a resource index, assignments which can be compound, casts to the type an expression already has, literal and pattern fields which can be shorthand, a `::` before type arguments of a method, variables and parameters nobody uses. Each report offers one repair, whose result is exactly the text with this construct rewritten: it has no errors, and all expressions which are left have the types they had.",
  over=["programs"], forall="every well-typed program, every construct in it which can be written better",
  why="The tests show each rewriting on one small example; operands of every form, their precedences, and the absence of reports where the rewriting is impossible need programs where expressions are combined at will.",
  files=["crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs", "crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs", "crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs", "crates/ide-diagnostics/src/handlers/replace_with_resource_index_expr.rs", "crates/ide-diagnostics/src/handlers/simplify_turbofish.rs", "crates/ide-diagnostics/src/handlers/unused_variables.rs", "crates/ide-diagnostics/src/handlers/redundant_cast.rs", "crates/ide-diagnostics/src/handlers/field_shorthand.rs", "crates/syntax/src/ast/syntax_factory/exprs.rs", "crates/syntax/src/syntax_editor.rs"],
  mech=[("method calls", "crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs"), ("index expressions", "crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs"), ("unused variables", "crates/ide-diagnostics/src/handlers/unused_variables.rs"), ("editing of trees", "crates/syntax/src/syntax_editor.rs")],
  observe=["warnings and hints with their ranges", "texts after each repair", "errors and types after each repair"],
  technique="TLA+/TLC: Types.tla writes well-typed programs and says at each expression whether and how it can be rewritten; reports, repaired texts, and the types in them are compared with the code's",
  note="About 640 (thorough N) programs with about 1900 (thorough M) repairs. Texts are compared without whitespace, and parentheses are judged by the types and errors of the result only. Specifications and imports (C15) are not judged."),
]
