import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    if hook: d['anchors']['hook_needed']=hook
    assert len(title)<=80,title
    P.append(d)
L='crates/parser/src/'; G=L+'grammar'; S='crates/syntax/src/'; M='crates/move_language_server/src/'; V='crates/vfs/src/'
p('P01','Tokenizing is total and lossless for every text',
 'Tokenizing any text whatsoever, including malformed Move and arbitrary Unicode, finishes without crashing. Every token before the end-of-file token is non-empty, starts and ends on a character boundary, and the tokens laid end to end reproduce the text exactly, with no gap and no overlap.',
 ['inputs'],'Every Unicode text (any length, any characters).',
 'The tests tokenize about ten well-formed ASCII files; the claim is about every text, in particular unterminated literals, multi-byte characters and characters outside the Move alphabet.',
 [L+'lexer.rs'],[('find_token and its helpers','crates/parser/src/lexer.rs'),('Lexer::new / bump / advance_with_token keep cur_start..cur_end','crates/parser/src/lexer.rs')],
 state=[('Lexer.cur_start/cur_end','byte span of the current token','crates/parser/src/lexer.rs'),('Lexer.all_tokens','every token so far, trivia included','crates/parser/src/lexer.rs')],observe=['parser::Lexer','all_tokens'])
p('P02','Tokens are classified by the Move lexical grammar',
 'Each token has the kind and extent the lexical grammar prescribes: maximal runs of blanks, line comments up to and including the newline, maximal identifiers with exactly the reserved words recognised as keywords, decimal and 0x integers with an optional u8/u64/u128 suffix, x"..."/b"..." strings on one line closed by the first unescaped quote, and the longest matching operator or punctuation. Any other character is reported as an error token covering exactly that character, and an unterminated string as an error token.',
 ['inputs'],'Every text and every position at which a token starts.',
 'Tests see a handful of tokens of each class in valid files; maximality, escapes, suffixes, near-keywords and multi-byte content need every input.',
 [L+'lexer.rs',L+'syntax_kind/generated.rs'],[('find_token','crates/parser/src/lexer.rs'),('SyntaxKind::from_keyword','crates/parser/src/syntax_kind/generated.rs')],observe=['parser::Lexer'])
p('P03','Parsing terminates on every text without crashing',
 'Parsing any text, however malformed, finishes and yields a syntax tree plus a list of errors; it never panics, never loops, and never gives up because the file is long. (Nesting depth is limited only by the thread stack.)',
 ['inputs'],'Every text; every reachable state of every grammar rule.',
 'The two error fixtures exercise two recovery paths; each loop in each grammar rule must make progress on every token it can meet and every started node must be closed on every path.',
 [L+'parser.rs',L+'marker.rs',L+'grammar.rs',G+'/items.rs',G+'/items/adt.rs',G+'/expressions.rs',G+'/expressions/atom.rs',G+'/patterns.rs',G+'/paths.rs',G+'/params.rs',G+'/types.rs',G+'/generic_params.rs'],
 [('every grammar loop consumes a token or stops','crates/parser/src/grammar'),('Marker drop bomb: each node completed or abandoned','crates/parser/src/marker.rs'),('step counter detects a stuck parser','crates/parser/src/parser.rs')],
 state=[('Parser.events','flat event stream','crates/parser/src/parser.rs'),('Parser.steps','look-ahead count since the last consumed token','crates/parser/src/parser.rs')],observe=['SourceFile::parse'])
p('P04','The syntax tree is a lossless, well-formed image of the text',
 'For every text the tree has exactly one root, a source-file node, and the concatenation of its leaves in order is the text itself: every token, blank and comment appears exactly once. Every node opened is closed, and properly nested.',
 ['inputs'],'Every text, and every event sequence the parser can emit for it.',
 'Golden trees cover ten texts; losslessness depends on how node boundaries, error recovery and trivia placement interact in every other text.',
 [L+'event.rs',L+'marker.rs',L+'parser.rs',S+'parsing/text_tree_sink.rs',S+'parsing.rs',S+'syntax_node.rs',S+'lib.rs'],
 [('one Token event per consumed token','crates/parser/src/parser.rs'),('Marker/CompletedMarker keep events balanced','crates/parser/src/marker.rs'),('event::process replays events with forward parents','crates/parser/src/event.rs'),('TextTreeSink re-attaches trivia','crates/syntax/src/parsing/text_tree_sink.rs')],observe=['SourceFile::parse(text).syntax_node().text()'])
p('P05','Binary operators group by precedence and to the left',
 'In every expression the tree groups binary operators by their precedence (* / % over + - over & over ^ over | over < > over =), operators of equal precedence group to the left, and prefix operators bind tighter than every binary operator while calls and field accesses bind tighter still. Blanks and comments between tokens never change the grouping.',
 ['inputs'],'Every expression built from operands, prefix, postfix and the supported binary operators, at any depth and any layout.',
 'One golden test has a few two-operator expressions; the claim ranges over all operator sequences and depths.',
 [G+'/expressions.rs',G+'/expressions/atom.rs',G+'/paths.rs'],[('expr_bp minimum binding power loop','crates/parser/src/grammar/expressions.rs'),('current_op table','crates/parser/src/grammar/expressions.rs')],observe=['SourceFile::parse'])
p('P06','Syntax errors and diagnostics point into the file',
 'Every syntax error reported for a text has a range inside that text whose ends are character boundaries, and errors come in non-decreasing order of position. The diagnostics of a file are exactly its first 128 syntax errors, in order, with the same ranges and messages; a file with no syntax error has none and yields its tree.',
 ['inputs'],'Every text and every number of errors in it.',
 'The fixtures have one or two errors near ASCII text; range validity and the cap have to hold for all texts and all error counts.',
 [S+'parsing/text_tree_sink.rs',S+'syntax_error.rs',S+'syntax_node.rs',S+'lib.rs','crates/ide_diagnostics/src/lib.rs'],
 [('errors are recorded at the current text position','crates/syntax/src/parsing/text_tree_sink.rs'),('diagnostics takes the first 128','crates/ide_diagnostics/src/lib.rs')],observe=['Parse::errors','Analysis::diagnostics'])
p('P07','Offsets and line/column positions convert back and forth exactly',
 'For every text and every character boundary in it, the line number is the number of newlines before it and the column is the byte distance from the start of that line; converting that position back gives the same offset. UTF-8 columns and UTF-16 columns of character boundaries map to each other exactly, whatever characters the line contains, and splitting a range by lines covers it exactly.',
 ['inputs'],'Every text, every offset, every line and column of a character boundary.',
 'Tests use a few short strings; multi-byte and surrogate-pair characters in every combination and position are needed.',
 ['crates/ide_db/src/line_index.rs'],[('LineIndex::new builds the newline table and the non-ASCII table','crates/ide_db/src/line_index.rs'),('line_col / offset','crates/ide_db/src/line_index.rs'),('utf8_to_utf16_col / utf16_to_utf8_col','crates/ide_db/src/line_index.rs')],
 state=[('newlines','offset of each line start','crates/ide_db/src/line_index.rs'),('utf16_lines','non-ASCII characters per line','crates/ide_db/src/line_index.rs')],observe=['ide_db::LineIndex'])
p('P08','Protocol positions use the negotiated encoding and round-trip',
 'Positions exchanged with the client count columns in UTF-8 bytes exactly when the client offered UTF-8, and in UTF-16 code units otherwise, for every file the server knows. For every text and character boundary, turning an offset into a protocol position and back yields the offset, and ranges convert end by end.',
 ['inputs','configurations'],'Every text, every offset, both encodings and every client capability set.',
 'No test covers the conversion at all except through ASCII edits; it must agree with the negotiated encoding for every text.',
 [M+'to_proto.rs',M+'from_proto.rs',M+'config.rs',M+'global_state.rs',M+'lsp_ext.rs'],[('position/range','crates/move_language_server/src/to_proto.rs'),('offset/text_range','crates/move_language_server/src/from_proto.rs'),('offset_encoding','crates/move_language_server/src/config.rs'),('file_line_index','crates/move_language_server/src/global_state.rs')],hook='crate-private functions reached through a cfg(verif_hooks) module')
p('P09','Incremental document edits leave server and client text identical',
 'Applying the content changes of a change notification gives the text obtained by applying them one after another, each against the text produced by the previous one, with UTF-16 columns; a change without a range replaces the whole text. This holds for every document and every sequence of edits that lie in the document, in any order and overlapping lines in any way.',
 ['inputs','histories'],'Every text and every finite sequence of valid ranged and full changes.',
 'The test applies about ten hand-written edit lists; staleness of the cached line table only shows for particular orders of edits and line counts.',
 [M+'lsp_utils.rs',M+'from_proto.rs','crates/ide_db/src/line_index.rs'],[('apply_document_changes and its IndexValid cache','crates/move_language_server/src/lsp_utils.rs')],
 state=[('index_valid','lines for which the cached line table is still right','crates/move_language_server/src/lsp_utils.rs')],hook='crate-private function reached through a cfg(verif_hooks) module')
p('P10','Line-ending normalisation replaces exactly CRLF by LF',
 'Normalising any text gives that text with every CRLF pair replaced by LF and every other character, including lone carriage returns, kept in place; the result is valid UTF-8. A text with no carriage return is returned unchanged and reported as Unix, any other as Dos.',
 ['inputs'],'Every text.',
 'No test exercises it; it rewrites bytes in place and then asserts UTF-8 without checking, so one wrong index corrupts the text.',
 [M+'line_index.rs'],[('LineEndings::normalize gap-copy loop','crates/move_language_server/src/line_index.rs'),('find_crlf','crates/move_language_server/src/line_index.rs')],hook='crate-private function reached through a cfg(verif_hooks) module')
p('P11','The file store reflects its last writes and logs every real change',
 'After any history of writes, each path has the contents last written to it (or none if last deleted), each path keeps one identity forever and different paths never share one, and listing shows exactly the existing files. The change log holds one entry per write that altered something, classified as create, modify or delete according to what existed before, in order, and taking it empties it.',
 ['histories'],'Every finite sequence of writes, deletions, look-ups and log reads over any paths and contents.',
 'There is no test for the store; identity stability and log exactness are claims over all histories.',
 [V+'lib.rs',V+'path_interner.rs'],[('Vfs::set_file_contents','crates/vfs/src/lib.rs'),('PathInterner','crates/vfs/src/path_interner.rs')],
 state=[('data','contents by file identity','crates/vfs/src/lib.rs'),('changes','log since last take','crates/vfs/src/lib.rs')],observe=['vfs::Vfs'])
p('P12','Each file belongs to exactly one file set: its nearest root',
 'Partitioning puts every existing file in exactly one set, the one configured with the longest root that is an ancestor of (or equal to) the file, and in the default set when no root is; nothing else appears. Within a set, looking a file up by path and a path up by file are inverse.',
 ['inputs','configurations'],'Every configuration of roots (nested, duplicated, sharing name prefixes) and every set of files.',
 'Two tests use two roots and two files each; the claim is over every configuration, including sibling names that share a prefix.',
 [V+'file_set.rs',V+'vfs_path.rs'],[('FileSetConfig::classify / partition','crates/vfs/src/file_set.rs'),('FileSetConfigBuilder::build','crates/vfs/src/file_set.rs'),('FileSet::insert','crates/vfs/src/file_set.rs')],observe=['FileSetConfig::partition'])
p('P13','Path operations obey the lexical laws of paths',
 'Normalising an absolute path yields an absolute path that resolves every "." and ".." lexically (never above the root) and normalising again changes nothing. For virtual paths, going to the parent removes the last component, joining a relative path climbs once per leading "../" and fails when it would climb past the top, and splitting a file name at its last dot loses nothing.',
 ['inputs'],'Every path and every relative path.',
 'One test covers file-name splitting on nine strings; joins, parents and normalisation have none.',
 ['crates/paths/src/lib.rs',V+'vfs_path.rs'],[('normalize_path','crates/paths/src/lib.rs'),('VirtualPath::pop/join/name_and_extension','crates/vfs/src/vfs_path.rs')],observe=['VfsPath','AbsPath::normalize'])
p('P14','The watched scope is includes minus nested excludes',
 'A file is in the scope of a directory entry exactly when its extension is one of the listed ones, it lies under some included directory, and it lies under no excluded directory that is itself inside the most specific included directory containing the file; a directory is in scope by the same rule without the extension test. A list-of-files entry contains exactly its files and no directories.',
 ['inputs','configurations'],'Every set of includes, excludes and extensions, and every path.',
 'There is no test of the scope rule; its outcome depends on nesting and order of all the entries.',
 [V+'loader.rs'],[('Directories::includes_path','crates/vfs/src/loader.rs'),('Entry::contains_file / contains_dir','crates/vfs/src/loader.rs')],observe=['vfs::loader::Entry'])
p('P15','Published diagnostics always mirror the latest results',
 'After any history of updates, the diagnostics shown for a file are the last set computed for it natively followed by the check diagnostics added since the last clear, without duplicates among the latter. The set of files to re-publish contains every file whose shown diagnostics changed since it was last taken, no file that was not touched, and is empty after being taken.',
 ['histories'],'Every sequence of native updates, check additions, clears and takes, over any files and diagnostics.',
 'Nothing tests the collection; a missed re-publish appears only after particular histories.',
 [M+'diagnostics.rs'],[('set_native_diagnostics','crates/move_language_server/src/diagnostics.rs'),('add_check_diagnostic / clear_check','crates/move_language_server/src/diagnostics.rs'),('take_changes','crates/move_language_server/src/diagnostics.rs')],hook='crate-private type reached through a cfg(verif_hooks) module')
p('P16','Open documents are tracked exactly',
 'After any sequence of opens, changes and closes, a document is known exactly when it was opened and not closed since, with the version last announced. Opening one twice or closing an unknown one is reported as an error without disturbing any other document, and the "set of open documents changed" flag is raised by every open and close, never by a version change, and lowered only when read.',
 ['histories'],'Every sequence of document operations over any paths.',
 'No test touches the table; the claim is over all histories.',
 [M+'mem_docs.rs'],[('MemDocs','crates/move_language_server/src/mem_docs.rs')],hook='crate-private type reached through a cfg(verif_hooks) module')
p('P17','Completion edits are accepted exactly when they are disjoint',
 'A completion together with additional edits is accepted exactly when, ordered by position, no edit starts before the previous one ends, and the insert range of an insert-or-replace edit is a prefix of its replace range. The answer does not depend on the order in which the edits are listed.',
 ['inputs'],'Every completion item and every list of additional edits with well-formed ranges.',
 'Tests use at most three ranges; ordering and touching ranges in every combination decide the answer.',
 [M+'lsp_utils.rs'],[('all_edits_are_disjoint','crates/move_language_server/src/lsp_utils.rs')],hook='crate-private function reached through a cfg(verif_hooks) module')
p('P18','Token sets and syntax kinds are faithful to their members',
 'A token set built from any list of kinds contains exactly those kinds, and the union of two sets exactly the members of either. Every syntax kind survives conversion to its number and back, an out-of-range number is rejected, and a typed syntax view accepts a node or token exactly when its kind is one the view stands for.',
 ['inputs'],'Every kind, every list of kinds, every 16-bit number.',
 'One test checks two kinds in a one-element set; the bit-set silently breaks once a kind no longer fits, and conversions are unchecked transmutes.',
 [L+'token_set.rs',L+'syntax_kind.rs',L+'syntax_kind/generated.rs',S+'ast/nodes.rs',S+'ast/tokens.rs',S+'syntax_node.rs'],[('TokenSet','crates/parser/src/token_set.rs'),('SyntaxKind <-> u16','crates/parser/src/syntax_kind.rs'),('AstNode::can_cast / cast','crates/syntax/src/ast/nodes.rs')],observe=['parser::TokenSet','SyntaxKind::from'])
p('P19','Every request gets exactly one response',
 'Each request the client sends is answered exactly once, under its own id: unknown methods and malformed parameters with the corresponding error, a cancelled request with a cancellation error and nothing after it, and every request after shutdown with an invalid-request error. No response is ever sent for an id that is not pending, and notifications get none.',
 ['histories'],'Every sequence of requests, notifications, cancellations and shutdown, with any ids and parameters.',
 'No test drives the message loop; double or missing answers depend on the order of messages.',
 [M+'dispatch.rs',M+'global_state.rs',M+'main_loop.rs'],[('RequestDispatcher::on_sync_mut/parse/finish','crates/move_language_server/src/dispatch.rs'),('register_request / respond / cancel','crates/move_language_server/src/global_state.rs'),('on_request','crates/move_language_server/src/main_loop.rs')],
 state=[('req_queue.incoming','ids registered and not answered','crates/move_language_server/src/global_state.rs'),('shutdown_requested','set once shutdown has been answered','crates/move_language_server/src/global_state.rs')],observe=['move_language_server::main_loop over an in-memory connection'])
p('P20','Analysis always sees the latest stored text of every file',
 'After the server absorbs pending file changes, analysis of each existing file sees the text last stored for it, with normalised line ends, and a file whose content is gone or is not valid text is seen as empty; files that did not change keep what they had. Each absorbed file belongs to the source root its path is classified into.',
 ['histories','inputs'],'Every sequence of file creations and modifications with any bytes, absorbed in any batches.',
 'No test runs the change pipeline; a stale or mis-normalised text shows only for particular batches and contents.',
 [M+'global_state.rs','crates/base_db/src/change.rs','crates/ide_db/src/apply_change.rs',M+'reload.rs'],[('GlobalState::process_changes','crates/move_language_server/src/global_state.rs'),('Change::apply','crates/base_db/src/change.rs'),('SourceRootConfig::partition','crates/move_language_server/src/reload.rs')],hook='driven through a cfg(verif_hooks) module')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
