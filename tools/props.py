NOTES = ("Runtime monitoring. Checks drive the real binary over stdio with a strict LSP client (vlib/lsp.py) or run "
         "in-process Go monitors compiled into the module through an overlay; every oracle is independent of the code "
         "under test. See DESIGN.md.")
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, technique, level_note, state=None, observe=None,
      level="exploration"):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
             technique=technique, level=level, level_note=level_note)
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    return d


PROPS = [
P("C01", "The server works on exactly the text the editor shows",
  "After any sequence of open, incremental change, full change and close notifications, the text the server analyses is "
  "exactly the editor's text, for every line ending (LF, CRLF, CR, mixed), every Unicode content and positions counted in "
  "UTF-16 code units. Every answer about the document equals the answer the server gives when the same text is opened afresh.",
  ["histories", "inputs"], "all edit histories (several changes per notification, edits at line ends, inside surrogate pairs' "
  "neighbourhood, past the end, empty and whole-document ranges) over all texts",
  "The tests apply a few fixed edits to ASCII documents with one line ending.",
  ["analysis/document.go", "internal/lsp/sync.go"],
  [("applying content changes", "Document.ApplyChanges, analysis/document.go"), ("line offset maintenance", "calculateLineOffsets / ApplyChanges"),
   ("position <-> offset", "OffsetAtPosition, positionAt")],
  "runtime monitor: edited document compared with an independent text model after every change (in process), and differential "
  "answers against a fresh open (over LSP)",
  "Seeded random edit histories; the text model is written independently from the LSP specification."),
P("C02", "Nothing a user can open, type or store on disk stops the server",
  "Whatever the content of documents, the bytes and shapes of the files in the workspace, and the positions asked about, the "
  "server keeps running, answers every request, and still answers correctly about well-formed documents afterwards.",
  ["inputs", "histories"], "all document texts (incomplete code at every prefix, mutated code, binary), all positions including ones outside the text, "
  "all file names and file types in the workspace",
  "Tests parse a fixed set of well-formed files and a few regressions; a crash needs one unlucky half-typed program.",
  ["analysis/document.go", "analysis/symbolBlock.go", "internal/lsp/completion.go", "internal/lsp/hover.go", "internal/lsp/definition.go",
   "internal/lsp/reference.go", "internal/lsp/signature.go", "internal/lsp/protocol/fs.go"],
  [("recovery from parser panics", "parse, analysis/document.go"), ("cycle guards on inheritance", "analysis/query.go"),
   ("walking the workspace", "FileFS.ListFiles, internal/lsp/protocol/fs.go")],
  "runtime monitor: crash, hang (CPU, memory and idle watchdogs), wire and liveness monitors over a grammar/mutation fuzzer driving the real binary",
  "Thousands of hostile documents per run. Documents on which the third-party parser library itself loops are set aside; one is a listed known finding."),
P("C03", "Every request is answered exactly once and in the state it was sent in",
  "Every well-formed request gets exactly one well-framed JSON-RPC reply that carries its own id, unknown methods and invalid "
  "parameters get an error reply, and notifications get none. Messages take effect in the order sent: a request sees all notifications "
  "before it and none after it, however the bytes are chunked and whatever malformed messages are between them.",
  ["histories", "inputs"], "all pipelined sequences of requests, notifications, replies and malformed bodies, under every chunking of the byte stream",
  "The tests of the connection exchange one message at a time over a pipe; pipelining, chunking and malformed messages are not sampled.",
  ["internal/jsonrpc2/jsonrpc2.go", "internal/jsonrpc2/stream.go", "internal/lsp/protocol/server.go", "internal/lsp/general.go"],
  [("framing", "headerStream.Read/Write"), ("serialising handlers", "Conn.Run, Request.Parallel"), ("default reply", "deferred reply in Conn.Run"),
   ("parameter errors", "sendParseError, unmarshalParams")],
  "runtime monitor: strict wire monitor and script oracle over randomly chunked, pipelined message streams",
  "Random scripts; integer and string ids; the client itself answers the server's requests."),
P("C05", "The index reflects the current sources after any history",
  "After any history of files being created, changed, deleted, renamed and moved with their folders, and of documents being opened, "
  "edited, saved and closed, every answer equals the answer of a server started afresh on the same sources. A document which is open "
  "counts with the text in the editor whatever happens to its file; a closed one counts with its file, or not at all.",
  ["histories", "schedules"], "all interleavings of file events (repeated, late, batched, for folders, for files which are gone again) and editor "
  "notifications over sets of files whose symbols clash",
  "Tests index one file and look it up; stale entries need a history of several events about several files and its comparison with a fresh index.",
  ["internal/lsp/workspaceStore.go", "analysis/store.go", "internal/lsp/sync.go"],
  [("file events", "WorkspaceStore.changeDocuments / createDocuments / deleteDocuments"), ("indexing", "Store.indexDocument, Store.SyncDocument"),
   ("removal", "Store.DeleteDocument, DeleteFolder, RemoveFolder")],
  "runtime monitor: differential oracle - every answer of the server with the history against those of a fresh server on the same sources",
  "Seeded random histories over 3-8 files with clashing symbols; quiescence is detected from the state of the server's threads."),
P("C07", "The index on disk survives restarts and catches up with offline changes",
  "A restart without changes gives the same answers as before it. Changes made while no server ran, in any form, and a change of the "
  "version of the server, are picked up by the next start completely: its answers are those of a fresh index.",
  ["histories", "configurations"], "all histories of sessions, each with edits and file events, with offline changes and server versions between them",
  "Tests never start the server twice on one data folder.",
  ["analysis/store.go", "internal/lsp/workspaceStore.go", "analysis/storage"],
  [("catching up", "Store.PrepareForIndexing, CompareAndIndexDocument, FinishIndexing"), ("version change", "Store.LoadStubs / Migrate / clear"),
   ("closing", "Store.Close, completion index writer")],
  "runtime monitor: differential oracle across orderly restarts, offline changes and other versions of the binary",
  "Seeded random session histories; three versions of the binary are linked from the same sources."),
P("C08", "A crash at any moment loses nothing that a restart cannot recover",
  "Whenever the server is killed - at any storage operation, during the first indexing, while files or stubs are being indexed - the "
  "next start recovers completely: its answers are those of a fresh index, and nothing of the removed or old text remains.",
  ["crash_points", "histories"], "all crash points between the system calls of the server, over all histories of sessions and offline changes",
  "A test process cannot be killed between two writes to the store; half-committed states only show at the next start.",
  ["analysis/store.go", "analysis/storage", "internal/lsp/workspaceStore.go"],
  [("atomic replacement of a document's entries", "Store.SyncDocument, storage.Batch"), ("what is already indexed", "CompareAndIndexDocument (mtime/hash)"),
   ("stub index", "Store.LoadStubs")],
  "runtime monitor with fault injection: SIGKILL at random times and, through strace, at a chosen storage system call; differential oracle after the restart",
  "Kills of the process, not of the machine: what was written to the page cache survives."),
P("C09", "What is shown about a declaration is what its text says",
  "Hover, signature help and completion show a declaration with exactly the modifiers, types, parameters, default values, value, bases and "
  "description which its latest text and its own doc comment give it, and with the class it is declared in - the same from an open document, "
  "after edits, from the index and after restarts.",
  ["programs", "histories"], "all declarations with all combinations of modifiers, types, defaults, doc comments and tags, in all layouts, line ends and namespaces, through edits and restarts",
  "Tests snapshot a few symbols of fixed files; facts get lost or mixed up by particular layouts, tags and combinations, or on their way through the storage.",
  ["analysis/function.go", "analysis/method.go", "analysis/property.go", "analysis/phpDocComment.go", "analysis/parameter.go", "analysis/symbolType.go", "internal/lsp/symbolConverter.go", "internal/lsp/hover.go"],
  [("doc comments", "phpDocComment, Document.getValidPhpDoc"), ("facts in the storage", "Serialise, Read* of every symbol"), ("what is shown", "symbolConverter.go")],
  "runtime monitor: hover, signature help and completion of every generated declaration compared with the facts the generator wrote, through edits, file events and restarts",
  "Descriptions are compared word by word, not in their layout; descriptions of traits and of single parameters and native return types are not kept by the server; values in @method tags are limited to what the parser reads."),
P("C10", "Names resolve as PHP resolves them",
  "Going to the definition of, or hovering over, the name of a class, interface, trait, function or constant leads to exactly the "
  "declaration PHP would use: namespaces, use clauses of all kinds and groupings, aliases, fully qualified and relative names, fallback "
  "to the global namespace, documentation types, self, static and parent. A name which refers to nothing leads nowhere.",
  ["programs"], "all sets of files with any namespaces, imports and declarations whose short names clash, reaching the server by any route",
  "Tests resolve a handful of names in single files; wrong resolution needs clashing names in several namespaces and files.",
  ["analysis/importTable.go", "analysis/query.go", "analysis/typeDeclaration.go", "internal/lsp/definition.go", "internal/lsp/hover.go"],
  [("imports per namespace block", "ImportTable"), ("qualification and fallback", "TypeString.SetFQN..., ImportTable.GetFunctionReferenceFQN"),
   ("where a name points", "LSPServer.definition, hover")],
  "runtime monitor: generated projects carry the truth of every name; definition and hover are compared with it",
  "The generator decides resolution from its own model of PHP's rules; every project has clashing short names."),
P("C11", "Members resolve through types, inheritance and visibility",
  "Going to the definition of, or hovering over, a method, property or class constant leads to exactly the declarations PHP could use for "
  "the type of the expression: own members before traits before parents, interfaces, visibility from where the access is, chains through "
  "return types, parameters, assignments, documentation, catch, new and static access.",
  ["programs"], "all sets of files with any inheritance and trait graph and any member names which clash, reaching the server by any route",
  "Tests access members of classes in one file; overriding, visibility and cross-file type inference interact in ways samples miss.",
  ["analysis/query.go", "analysis/variable.go", "analysis/propertyAccess.go", "analysis/methodAccess.go", "internal/lsp/definition.go"],
  [("member search and merging", "Query, InheritedMethods/Props/ClassConsts"), ("types of expressions", "GetTypes / Resolve"), ("types of variables", "VariableTable")],
  "runtime monitor: generated projects carry the truth of every member access; definition and hover are compared with it",
  "Static access to non-static or non-public members is not generated (existing tests pin what the server does there)."),
P("C12", "Find references returns exactly the uses",
  "Finding the references of a class, interface, function or member, from its declaration or any use, returns every use and the "
  "declaration in all files, each once, with its current range, and nothing else - after any history of edits, deletions and restarts.",
  ["programs", "histories"], "all sets of files with clashing names, all edits which move, remove or change files, all routes by which files come in",
  "Tests search references in one freshly indexed file; stale and missing entries come from the filters and ranges kept across edits.",
  ["analysis/referenceIndex.go", "analysis/filter", "internal/lsp/reference.go"],
  [("reference index", "referenceIndex, its per-document filters"), ("collecting", "LSPServer.references"), ("canonical keys of members", "refs of symbols")],
  "runtime monitor: generated projects carry every use of every symbol; references are compared with it as sets after each step of a history",
  "Members are matched by name, as the server documents; declarations of traits are accepted both ways."),
P("C13", "Renaming a variable changes exactly its occurrences",
  "A rename asked for at any occurrence of a variable changes every occurrence of this variable in its scope - including the closures which "
  "use it, arrow functions, strings and the functions which share it as a global - once each and keeps the dollar sign, and changes nothing "
  "else: no variable of the same name in another scope, no property, text or comment.",
  ["programs", "inputs"], "all programs with nested functions, methods, closures, arrow functions and anonymous classes, all forms of occurrences and all positions in them",
  "Tests rename nothing; an occurrence is missed only for particular nestings, scopes and syntax.",
  ["internal/lsp/reference.go", "analysis/variable.go", "analysis/anonymousFunction.go", "analysis/arrowFunction.go", "analysis/globalVariable.go"],
  [("tables of variables", "VariableTable, Document.pushVariable"), ("scopes which share variables", "Document.SharedVariablesAt"), ("edits", "Server.rename")],
  "runtime monitor: the edits of every rename are compared with the occurrences of the variable known to the generator of the program",
  "Names in doc comments, compact() and extract() are no occurrences; ${name} with a name starting outside ASCII is misplaced by the parser library and left out."),
P("C14", "Accepting a completion yields code that means the completed symbol",
  "Accepting a completion item - its text plus its additional edits - leaves a valid document in which the completed name refers to exactly "
  "the symbol the item showed, and everything else means what it meant before. Every symbol, member or variable which is accessible at the "
  "cursor and starts with the typed word is offered once, unless the list says it is incomplete, and nothing which cannot be used there is.",
  ["programs", "inputs"], "all projects with clashing names, all namespace blocks and imports of the edited file, all places and typed words",
  "Tests complete a few words in fixed files; whether the inserted use and name mean the symbol depends on every import and declaration of the file.",
  ["internal/lsp/completion.go", "analysis/insertUse.go", "analysis/importTable.go", "analysis/completionIndex.go"],
  [("names and uses to insert", "ImportTable.ResolveToQualified, insertUse"), ("completion index", "completionIndex, Store.Search*"), ("contexts", "Server.completion")],
  "runtime monitor: every item is applied to the text, an independent PHP name resolver interprets the result, go to definition confirms it, and the offered set is compared with the generated truth",
  "Relative qualified words (Sub\\K) are not completed by the server and only checked for soundness; names an interface extends are not navigable."),
P("C15", "Diagnostics are true of the latest text",
  "Diagnostics published for a document belong to its latest text and stay so: code PHP cannot parse is reported within the text and valid code "
  "is not, exactly the imports which nothing uses and the values which nothing can read are reported as unused, and exactly the names which "
  "mean deprecated symbols as deprecated; older ones never follow those of a newer text.",
  ["programs", "histories"], "all programs with imports, deprecated symbols, loops, references and closures, all edits up to the text and all speeds of typing",
  "Tests look at one or two fixed programs; false alarms need particular constructs (loops, references, aliases), stale ones particular timings.",
  ["analysis/diagnostic.go", "analysis/variable.go", "analysis/importTable.go", "internal/lsp/diagnostics.go"],
  [("unused values", "VariableTable.unusedVariables"), ("unused imports", "ImportTable.unusedImportItems"), ("deferred diagnostics", "Server.provideDiagnostics, Store.DebounceDeprecation")],
  "runtime monitor: published diagnostics are compared with the truth known to program generators, and every sequence of publications with the texts sent",
  "Deprecated traits and self/static/parent are not judged; where a value may be read through a reference or a later iteration both answers are accepted for missed ones."),
P("C16", "Signature help shows the called function and the argument at the cursor",
  "While the cursor is between the brackets of a call, the editor shows the signature of exactly the function, method or constructor which that "
  "call runs, with the parameters as they are declared and the description as it is written; the parameter shown as active is the one of the "
  "argument the cursor is in, and outside of calls nothing is shown.",
  ["programs", "inputs"], "all nestings of calls, strings, arrays, closures, comments and line breaks in arguments, all cursor positions, all declared signatures and call forms",
  "Tests ask at a handful of positions of flat calls; wrong commas and wrong callees appear in particular nestings and positions.",
  ["internal/lsp/signature.go", "analysis/argumentList.go", "analysis/document.go", "internal/lsp/symbolConverter.go"],
  [("call at the cursor", "Document.ArgumentListAndFunctionCallAt"), ("active parameter", "ArgumentList.GetRanges, signatureHelp"), ("signature", "hasParamsToSignatureInformation")],
  "runtime monitor: signature help at generated cursor positions compared with the call tree known to a generator of nested calls",
  "Seeded random call trees; inside arrays, closures and brackets within an argument nothing or the surrounding call may be shown; descriptions of single parameters are not kept by the server."),
P("C17", "The outline and the workspace symbols are exactly the declarations",
  "The outline of a document lists exactly the declarations its text contains, nested as they are in the text, with their kinds and places; "
  "searching the workspace for the name of any declaration finds it where it is, nothing found is anywhere else or gone, and an answer which "
  "is cut short still has what is named exactly as asked.",
  ["programs", "histories"], "all nestings of declarations in statements and expressions, equal names, non-ASCII names, all texts before, all files deleted or replaced, all queries",
  "Tests list the symbols of a few flat files; declarations get lost in particular constructs and combinations of names, stale ones after particular edits.",
  ["internal/lsp/symbol.go", "analysis/document.go", "analysis/store.go", "analysis/completionIndex.go", "internal/lsp/symbolConverter.go"],
  [("outline", "Server.documentSymbol"), ("search", "Server.workspaceSymbol, Store.SearchX"), ("index of words", "completionIndex, searchCompletions")],
  "runtime monitor: outline and symbol search compared with the declarations known to generators of nested programs, through edits, deletions and restarts",
  "Seeded random declaration trees and projects; of several declarations with one name in one file any may be found by the search."),
P("C19", "The stored index is a function of the current texts",
  "After any history of indexing, edits, file events, restarts and kills, the index on disk holds exactly the entries - declarations, "
  "searchable words, references - which a first run over the current texts writes: no entry of an earlier text or of a deleted file is "
  "left behind, none is missing, none differs.",
  ["histories", "crash_points"], "all histories of sessions with edits, file events, offline changes and kills at any write of the storage",
  "Tests look up a few symbols after one indexing; entries which are left behind or lost are found by no query of theirs.",
  ["analysis/store.go", "analysis/completionIndex.go", "analysis/referenceIndex.go", "analysis/storage"],
  [("what is deleted", "symbolDeletor, completionIndexDeletor, referenceIndex.deleteURI"), ("what is written", "Store.SyncDocument, writeAllSymbols"),
   ("what is removed", "Store.DeleteDocument, FinishIndexing")],
  "runtime monitor: state differential - every entry of the databases after a history against those a fresh server writes, with kills in front of chosen writes",
  "The stored lists of the symbols of deleted documents are excluded (overwritten only, found by nothing); databases are read with the storage libraries themselves."),
P("C20", "Every workspace folder is answered as if it were the only one",
  "With several workspace folders, answers about a document are those of its folder alone, searches cover exactly the folders which are "
  "present, and folders may be added, removed and added again at any time - with documents of theirs open, edited or changed on disk "
  "meanwhile - without leaving anything behind or losing anything.",
  ["histories", "configurations"], "all sets of folders, names which are beginnings or escaped forms of each other, all orders of additions, removals, edits and restarts",
  "Tests use one folder which never changes; what is left behind or mixed up depends on the order of folder changes and edits.",
  ["internal/lsp/workspaceStore.go", "internal/lsp/sync.go", "internal/lsp/symbol.go", "analysis/store.go"],
  [("folder of a document", "workspaceStore.getStore"), ("folders which come and go", "workspaceStore.addView, removeView"), ("search", "Server.workspaceSymbol")],
  "runtime monitor: differential oracle - a server with many folders and a random history against a fresh server for each folder alone",
  "Nested workspace folders are excluded: a file belongs to the first folder containing it."),
P("C21", "A file is one document, whatever its name and however its URI is written",
  "Files and folders of any name - spaces, percent signs, plus, hash, question marks, parentheses, any script - are indexed, found and "
  "edited as one document each, whichever of its characters the client escapes in a URI, across restarts; every URI the server answers "
  "denotes the file and is understood when it is sent back.",
  ["inputs", "histories"], "all file and folder names, all spellings of their URIs in every message, all routes by which files come in, across restarts",
  "Tests use plain ASCII paths in one spelling; the identity of a document only breaks between two spellings of one name.",
  ["util/uri.go", "internal/lsp/workspaceStore.go", "internal/lsp/sync.go", "internal/lsp/protocol/fs.go"],
  [("one spelling inside", "normaliseURI, util.DecodeURIFromQuery"), ("paths and URIs", "util.PathToURI, URIToPath, FileFS.ConvertToURI"),
   ("short keys", "util.CanonicaliseURI, URIFromCanonicalURI, GetURIID")],
  "runtime monitor: identity oracle over hostile names and URI spellings (symbol counts, definitions, references, round trips of answered URIs)",
  "Eight folder names, seeded random file names, six ways to escape URIs."),
P("C22", "Overlapping work is free of data races and deadlocks and ends right",
  "However requests, edits, file events, folder changes, start-up indexing and delayed diagnostics overlap, the server has no data race "
  "and no deadlock, answers every request, and once it is idle its answers are those of a fresh server.",
  ["schedules", "histories"], "all interleavings of the server's goroutines under overlapping messages, from the first moment of the start-up on",
  "Tests call the store from one goroutine and run without the race detector.",
  ["internal/lsp/workspaceStore.go", "internal/lsp/sync.go", "internal/lsp/diagnostics.go", "analysis/store.go", "analysis/document.go"],
  [("locks", "Store.LockURI, Document.Lock, storesMu"), ("workers", "newCreator, newDeletor, indexFolder"), ("delayed diagnostics", "DebounceDeprecation")],
  "sanitizer: the real server built with Go's race detector under overlapping pipelined load, with deadlock watchdogs and a differential oracle at rest",
  "Real schedules under load on 8 cores, perturbed by random pauses; no controlled scheduler."),
P("C04", "Work which is over leaves nothing behind, however often it is repeated",
  "Once edits are undone, documents closed, files and folders removed and questions answered or cancelled, the server holds no more goroutines, "
  "open files and memory than before, however often this is repeated. The space which overwritten data takes on the disk is given back by the next start.",
  ["histories"], "all cycles of work which end in the state in which they began, repeated any number of times",
  "Tests run each operation once, and nothing which accumulates fails a test.",
  ["internal/lsp/workspaceStore.go", "internal/lsp/sync.go", "internal/lsp/diagnostics.go", "internal/jsonrpc2/jsonrpc2.go", "analysis/store.go"],
  [("documents which are held", "Store.documents, GetOrCreateDocument, CloseDocument"), ("delayed diagnostics", "DebounceDeprecation"),
   ("requests in progress", "jsonrpc2.Conn handling and pending maps"), ("space on the disk", "Store openStore, greb.Compact")],
  "runtime monitor: exact counts of goroutines, descriptors, heap objects (profiler at full rate, by allocation site) and stored bytes over blocks of repetitions",
  "A growth counts only if it is there in every block and about proportional to the repetitions; caches of bounded size do not alarm."),
P("C23", "Asking changes nothing",
  "The same question has the same answer for as long as nothing is edited, whatever else was asked before, in whatever order, one after the other or all at once.",
  ["histories", "schedules", "inputs"], "all sequences and overlaps of requests over all workspaces with open and closed documents",
  "Tests ask once; an answer which is computed in place over shared state is right the first time.",
  ["analysis/document.go", "analysis/symbolType.go", "analysis/store.go", "analysis/query.go", "internal/lsp/definition.go", "internal/lsp/completion.go"],
  [("types filled in by questions", "Document.Load, resolved type composites"), ("documents read for a question", "Store.GetOrCreateDocument")],
  "runtime monitor: self-consistency oracle - each answer compared with the first one to the same question, in order, shuffled, repeated and all at once",
  "Seeded random projects of 1-5 files and some 30 positions in each; lists said to be incomplete are compared by being incomplete."),
]
