"""What decides each property: proof units (units/*.vx), replay crate, level."""
LEX = ["text below 4 GiB (Token::new stores lengths as u32, as rowan does)"]
PROPS = {
 "P01": dict(units=["lexer", "lexstream"], crate="syntax", level="proof", technique="Verus contracts on the real lexer functions",
   assumptions=LEX, bounded="whole-lexer run over enumerated and random texts (replay/syntax)",
   note="Every function of lexer.rs under contract: find_token returns the first token of the lexical grammar, and the Lexer invariant lays tokens end to end from the start of the text; at EOF they cover it. Trusted: std string operations (shims), texts below 4 GiB."),
 "P02": dict(units=["lexer", "lexstream"], crate="syntax", level="proof", technique="Verus contracts against a specification of the lexical grammar",
   assumptions=LEX, bounded="reference lexer against the real one (replay/syntax)",
   note="find_token, its helpers and from_keyword are proved equal to a spec function of the lexical grammar for every text. Trusted: std string operations (shims), texts below 4 GiB."),
 "P03": dict(units=["lexstream", "marker", "grammar", "sink", "tree"], off=["grouping"], crate="syntax", level="proof", technique="Verus contracts on every function from the lexer to SourceFile::parse, with termination measures",
   assumptions=LEX + ["fewer than 15 million lookups between two consumed tokens and fewer than u32::MAX events (both far beyond the thread stack's nesting)"], bounded="enumerated token strings, random and mutated texts, long files (replay/syntax)",
   note="Every grammar function, the parser primitives, markers, event::process, TextTreeSink and SourceFile::parse are under contract: no panic is reachable, every loop and recursion has a measure, every marker is completed or abandoned. Trusted: rowan's builder, DropBomb, Cell, std strings."),
 "P04": dict(units=["lexstream", "marker", "grammar", "sink", "tree"], off=["grouping"], crate="syntax", level="proof", technique="Verus contracts on the event stream, its replay and the tree sink",
   assumptions=LEX, bounded="trees of enumerated and random texts compared with their text (replay/syntax)",
   note="The events are proved one balanced stream with an event for every significant token, event::process to open and close nodes accordingly whatever the forward parents, and TextTreeSink to lay every token and trivia once: the leaves' texts concatenated are the text. Trusted: rowan's builder and cursors do what their calls say."),
 "P05": dict(units=["marker", "grammar", "sink", "tree"], crate="syntax", level="proof", technique="Verus contracts on the expression grammar, on event::process and on the tree sink over a specification of grouping",
   assumptions=LEX + ["fewer than u32::MAX events (far beyond the thread stack's nesting)"], bounded="enumerated operator sequences, trees compared with a reference (replay/syntax)",
   note="Marker::complete requires of every operation, prefix, call and access that its events are grouped and that nothing within can change any more; the parser's invariant keeps all of them so. event::process is proved to ask for exactly the replay of the events (forward parents included) and the sink to pass it on; a lemma over both gives it for the calls that build the tree SourceFile::parse returns. Trusted: rowan's builder and cursors do what their calls say."),
 "P06": dict(units=["sink", "tree", "publish"], off=["grouping"], crate="syntax+lsp", level="proof", technique="Verus contracts on the tree sink's errors and on ide_diagnostics::diagnostics",
   assumptions=LEX + ["salsa answers parse with parse_query on the current text"], bounded="errors of enumerated and random texts, files with more than 128 errors (replay/syntax), and what a running server publishes of them (replay/lsp)",
   note="Every error is proved to lie at a character boundary inside the text, in order; diagnostics() to be the first 128, in order, with their ranges, messages and severity. The way from there to the client is under contract too (Analysis::diagnostics, publish_diagnostics, update_diagnostics): each open document is reported on, with these diagnostics, unless a later change cancels it. Trusted: salsa, rowan's builder, the task pool runs its jobs."),
 "P07": dict(units=["lineindex"], crate="lsp", level="proof", technique="Verus contracts on LineIndex",
   assumptions=["texts of at most u32::MAX bytes (text-size's limit)"], bounded="enumerated and random texts against a reference (replay/lsp)",
   note="new, line_col, offset, to_utf16, to_utf8, both column conversions and lines() are under contract against spec functions of the text; the round trips are lemmas and calls over those contracts. Trusted: TextSize is a checked u32, iterator chains of lines() as sequences, hash map as a map."),
 "P08": dict(units=["lineindex", "proto", "publish", "startup", "session"], crate="lsp", server=True, level="proof", technique="Verus contracts on the protocol conversions and the encoding chosen",
   assumptions=["texts of at most u32::MAX bytes (text-size's limit)", "the analysis answers with the line index of the file's current text (salsa)"], bounded="round trips over enumerated texts, and positions through a running server under several capability sets, and what the server process announces to each (replay/lsp)",
   note="to_proto::position/range, from_proto::offset/text_range, supports_utf8, Config::offset_encoding and file_line_index under contract over the contracts of LineIndex; publish_diagnostics is proved to place every diagnostic by them. run_server is proved to announce UTF-8 exactly when the client offered it and to run the session with what the client offered, and the session keeps that configuration. Trusted: lsp_server's handshake, JSON: salsa, the lock around the store."),
 "P09": dict(units=["docedits", "proto", "lineindex", "serve", "turn", "session"], crate="lsp", level="proof", technique="Verus contract on apply_document_changes over those of the positions and the line index",
   assumptions=["every text on the way has at most u32::MAX bytes (text-size's limit)", "every edit lies in the text it is applied to, as the protocol asks"], bounded="enumerated and random edit sequences against a reference, through a running server too (replay/lsp)",
   note="apply_document_changes is proved, for every text and every sequence of edits lying in it, to give the text the edits make one after another, with UTF-16 columns, however stale the line index it keeps. Trusted: String::replace_range. The notification handlers are under contract too: an open document is stored with the text its changes make of the one it had; and run, the main loop, keeps for every sequence of events that the store has of each document the text the client has, or had last, and no other file."),
 "P10": dict(units=["normalize"], crate="lsp", level="proof", technique="Verus contract on LineEndings::normalize",
   assumptions=[], bounded="enumerated and random texts against a reference (replay/lsp)",
   note="normalize and find_crlf are proved, for every text, to give the text with each CRLF replaced by LF, as characters, with the in-place moves on the byte buffer followed one by one. Trusted: std slice operations (copy_within, windows, set_len), from_utf8_unchecked on bytes proved to be UTF-8."),
 "P11": dict(units=["vfs"], crate="lsp", level="proof", technique="Verus contracts on Vfs and PathInterner",
   assumptions=["fewer than u32::MAX paths (intern asserts it)"], bounded="histories of writes, deletions and log reads against a reference (replay/lsp)",
   note="Every method of Vfs, PathInterner and ChangedFile under contract: identities never change and are never shared, a write changes one path's contents and logs exactly the real change, the listing is exact. Trusted: IndexSet as a sequence without repetitions, VfsPath's derived equality, iterator chain of iter() as a list."),
 "P12": dict(units=["fileset", "vfs"], crate="lsp", level="proof", technique="Verus contracts on FileSetConfig, its builder, PrefixOf and VfsPath::encode",
   assumptions=["fst searches its keys in order with the automaton, whose methods are under contract", "keys of one Vec<u8> fit isize::MAX"], bounded="enumerated and random roots and files against a reference (replay/lsp)",
   note="build, classify and partition are proved: every existing file goes into exactly one set, that of its nearest root (a root listed twice counts for its first set) or the last one, under its path and identity, and nothing else is in any set. Trusted: fst::Map, sort/dedup_by, hash maps as mathematical maps."),
 "P13": dict(units=["paths"], crate="lsp", level="proof", technique="Verus contracts on normalize_path, VirtualPath and VfsPath",
   assumptions=["std::path on unix: a path is its components, and push/pop/components act on them as documented", "what AbsPath::join appends is std's"], bounded="enumerated and random paths against a reference (replay/lsp)",
   note="normalize_path is proved to be the lexical resolution of the components (and idempotent to the byte), VirtualPath's pop, join and name_and_extension equal to spec functions of the characters, and VfsPath's join, pop, parent and constructors to keep that. Trusted: std::path and std string operations."),
 "P14": dict(units=["loader"], crate="lsp", level="proof", technique="Verus contracts on Directories and Entry",
   assumptions=["std::path on unix: starts_with and == compare components, extension is a function of them", "every AbsPathBuf wraps an absolute path (its only constructors check it)"], bounded="enumerated includes, excludes and paths against a reference (replay/lsp)",
   note="includes_path, contains_file and contains_dir of Directories and of Entry, and the AbsPath methods under them, are proved equal to the scope rule for every list of includes, excludes and extensions, in any order. Trusted: std::path, iter().any/all as quantifiers."),
 "P15": dict(units=["diagnostics", "turn", "publish", "pool", "session"], crate="lsp", level="proof", technique="Verus contracts on DiagnosticCollection and the main loop's turn",
   assumptions=["diagnostics count as equal when source, severity, range and message are equal, as are_diagnostics_equal has it"], bounded="histories of updates against a reference, and whole server sessions (replay/lsp)",
   note="Every method of DiagnosticCollection under contract: each update's effect on what is shown and on the set to publish. A turn of the main loop (handle_event) is proved, for every event, to record what the pool's tasks report, in order, and to publish each file whose diagnostics changed and no other (libraries excepted), once, with what is then shown; and to give the pool, when files or the set of open documents changed, one job, whose task reports on the open documents as they are then (update_diagnostics, publish_diagnostics under contract). run keeps, for every sequence of events, that what was last published of each file never in a library is what is shown for it. Trusted: hash maps as mathematical maps, the pool runs the jobs it is given, Url::from_file_path."),
 "P16": dict(units=["memdocs", "serve", "turn", "session"], crate="lsp", level="proof", technique="Verus contracts on MemDocs and the notification handlers",
   assumptions=[], bounded="histories of notifications driven through the server (replay/lsp)",
   note="Every method of MemDocs under contract as a map with a flag. Trusted: hash maps as mathematical maps. The handlers of didOpen, didChange and didClose are proved to insert, update and remove the document named by the URL, for every notification. So is the version published with diagnostics, and that the flag is read once a turn. run keeps, for every sequence of events, that the table has exactly the documents opened and not closed since, each with the version last announced. Trusted: Url::to_file_path."),
 "P17": dict(units=["edits"], crate="lsp", level="proof", technique="Verus contract on all_edits_are_disjoint",
   assumptions=[], bounded="enumerated edit lists against a reference (replay/lsp)",
   note="all_edits_are_disjoint is proved equal to a spec over the sorted list of edits, and that spec independent of the listing order. Trusted: sort_by_key sorts, lsp_types orders are lexicographic."),
 "P18": dict(units=["kinds"], crate="syntax", level="proof", technique="Verus contracts on TokenSet, the kind conversions and the typed views",
   assumptions=["the typed views under contract are the listed ones; the others are the same generated pattern and are compared with the grammar by the bounded part"], bounded="every kind, every generated view and random sets against a reference (replay/syntax)",
   note="TokenSet, From<u16>/Into<u16> and the can_cast/cast/syntax methods under contract; membership by bit-vector lemmas. Trusted: the transmute of an in-range u16, rowan nodes have one kind."),
 "P19": dict(units=["serve", "turn", "session"], crate="lsp", level="proof", technique="Verus contracts on the request queue's use, the dispatchers and on_request",
   assumptions=["the channel to the client takes every message", "a notification's parameters are what its method takes (lsp_server's extract panics otherwise)"], bounded="sessions of requests, cancellations, repeated ids and shutdowns driven through the server (replay/lsp)",
   note="on_request, RequestDispatcher (parse, on_sync_mut, finish), result_to_response, respond, cancel, register_request, send and the cancellation handler are proved: a request gets exactly one answer, with its id, saying what its method, parameters and an earlier shutdown call for, and a cancellation answers a pending request only. handle_event is proved to answer pending requests only, each once, whatever the pool's tasks say. GlobalState::new starts with nothing pending and nothing sent, and run keeps, for every sequence of events, that the answers sent are those of the requests so far, one each, in order, under their ids, saying what each is to be told. Trusted: lsp_server's queue as a map, JSON parsing. The dispatchers no request uses (on_sync, on) are not reached."),
 "P20": dict(units=["absorb", "vfs", "fileset", "normalize", "turn", "session"], crate="lsp", level="proof", technique="Verus contracts on process_changes and Change::apply over those of the store, the file sets and normalize",
   assumptions=["salsa's inputs are maps: a query sees what was last set", "every path of the store is one on disk, as from_proto::vfs_path makes them", "at most u32::MAX source roots"], bounded="histories of writes and absorbings driven through the server, against a reference (replay/lsp)",
   note="process_changes, Change::apply, RootDatabase::apply_change, SourceRootConfig::partition and SourceRoot under contract: for every history of writes and every batch, analysis has the normalised text of every file in the source root of its path; lemmas carry the invariant over the writes in between, and handle_event keeps it over every event: after each turn analysis sees what is stored; and run keeps, from GlobalState::new on, that it sees each text the client has or had last, normalised, in the root of its path. Trusted: salsa's storage, the lock, String::from_utf8."),
}
NOT_APPLICABLE = {}
HOOK_COMMITS = ['cd205aff51ca9ede8eee95ed63c878fc969f0071', '391e24fb4ce848581eb0bd55b0aba5787061de12']
