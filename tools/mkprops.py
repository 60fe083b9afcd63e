import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
FS,SC,IN,HI,CF,CP='fault_sequences','schedules','inputs','histories','configurations','crash_points'
HOOK="cfg(spaceman_sim) entry point that lets the simulator call the program's main()"
p('C01','A successful map save has stored the whole map',
 "Saving a map to a file or any writer either returns an error, and that only if the operating system or writer refused something, or leaves a complete map file at the destination which, loaded back, equals the saved map: same dimensions, same key in every cell, same prefabs with the same variables (numbers to the six digits DM prints) in every dictionary entry. This holds however the operating system splits, interrupts or refuses the writes (short writes, interrupted calls, full disk, I/O errors at any byte).",
 [FS,IN],"every map, every sequence of short/interrupted/failed writes and failed opens, at every byte position",
 "The single map test parses maps and never makes a write fail or fall short; a lost final flush is invisible on a healthy disk.",
 ['crates/dmm-tools/src/dmm.rs','crates/dmm-tools/src/dmm/save_tgm.rs','crates/dmm-tools/src/dmm/read.rs'],
 [('buffered TGM writer propagating every io::Error','crates/dmm-tools/src/dmm/save_tgm.rs'),('Map::to_file/to_writer','crates/dmm-tools/src/dmm.rs')],
 observe=['return value of the save','bytes in the destination file afterwards'])
p('C02','A map load is all-or-nothing and independent of read splitting',
 "Loading a map file gives the same map however the reads are split or interrupted, and returns an error whenever the file cannot be opened or a read fails; it never returns part of a file as if it were the map. Loading a truncated or damaged map file ends, after a bounded amount of work, with a map or an error and never brings the process down.",
 [FS,CP,IN],"every map file, every splitting of reads, every read error position, every truncation point and small corruption of the stored bytes",
 "Tests read intact files from a healthy disk in whole-buffer reads; truncation points, torn files and read errors are never produced.",
 ['crates/dmm-tools/src/dmm/read.rs','crates/dmm-tools/src/dmm.rs','crates/dreammaker/src/lexer.rs'],
 [('whole-file buffering before parsing','crates/dreammaker/src/lexer.rs buffer_file'),('map parser error returns','crates/dmm-tools/src/dmm/read.rs')],
 observe=['result of the load','process termination'])
p('C03','An icon load is all-or-nothing and independent of read splitting',
 "Loading an icon sheet gives the same image and the same icon states however the reads are split or interrupted and in whatever order directories are listed, and reports an error whenever the file cannot be opened or fully read. Loading a truncated or damaged icon file ends, after a bounded amount of work, with an icon or an error and never brings the process down.",
 [FS,CP,IN],"every icon file, every splitting of reads, every read error position, every truncation point and small corruption",
 "The DMI tests parse in-memory metadata strings of well-formed icons; no read ever fails, falls short or returns damaged bytes.",
 ['crates/dmm-tools/src/dmi.rs','crates/dreammaker/src/dmi.rs'],
 [('IconFile::from_file / Metadata::from_file','crates/dmm-tools/src/dmi.rs, crates/dreammaker/src/dmi.rs')],
 observe=['result of the load','decoded pixels and metadata'])
p('C04','The shared icon cache gives every thread the right icon',
 "However many threads look up icons through one shared cache, every lookup of a path returns either the icon stored at that path or, only if loading it failed, a failure; once a lookup of a path has returned an icon, every later lookup of it returns the same icon for as long as the cache lives. No lookup blocks forever and no lookup for one path is ever answered with another path's icon.",
 [SC,FS,HI],"every interleaving of concurrent lookups from any number of threads, every pattern of failing loads",
 "No test touches the cache, let alone from several threads; a race needs a particular interleaving between the read-lock miss and the write-lock insert.",
 ['crates/dmm-tools/src/icon_cache.rs'],
 [('double-checked RwLock<HashMap> of Arc<IconFile>','crates/dmm-tools/src/icon_cache.rs')],
 observe=['results of concurrent lookups'])
p('C05','Rendered maps do not depend on scheduling, job count or hash seeds',
 "Rendering the same maps of the same environment with the same options (randomising passes excluded) always produces the same set of files with identical pixels and the same text report, whatever number of jobs is used, however worker threads are interleaved, however file reads are split or interrupted, and whatever seeds the process's hash tables draw.",
 [SC,CF,IN],"every thread interleaving, job count, hash seed and read splitting, for every environment and set of maps",
 "There is no rendering test; a unit test runs one schedule with one set of hash seeds and could not distinguish luck from determinism.",
 ['crates/dmm-tools-cli/src/main.rs','crates/dmm-tools/src/minimap.rs','crates/dmm-tools/src/icon_cache.rs','crates/dmm-tools/src/render_passes/mod.rs'],
 [('per-z independent rendering with order-independent sprite sort','crates/dmm-tools/src/minimap.rs'),('parallel driver over maps and z-levels','crates/dmm-tools-cli/src/main.rs')],
 observe=['PNG files in the output directory','standard output','exit status'],hook=HOOK)
p('C06','The map renderer exits successfully only if every image was produced',
 "When the command-line renderer exits with status zero, every requested z-level of every requested map has been written as a complete, decodable image of its own (also when several maps have the same file name), equal to what a fault-free run reading the same environment and icons writes; if a map cannot be read or an image cannot be stored the exit status is non-zero, however many failures there were. A failure on one map never corrupts the images of other maps reported as saved.",
 [FS,SC,CF],"every set of failing map reads, directory creations and image writes, under every schedule and job count",
 "No test runs the command-line tools; a healthy disk never exercises the failure paths or the exit-status arithmetic.",
 ['crates/dmm-tools-cli/src/main.rs','crates/dmm-tools/src/dmi.rs'],
 [('exit_status counter turned into process exit status','crates/dmm-tools-cli/src/main.rs'),('image writer error propagation','crates/dmm-tools/src/dmi.rs')],
 observe=['exit status','files in the output directory'],hook=HOOK)
p('C07','A successful image save has stored a complete image',
 "Saving an image to a file or writer either returns an error or leaves a complete image file at the destination that decodes to exactly the pixels that were saved, however the operating system splits, interrupts or refuses the writes.",
 [FS,IN],"every image, every sequence of short/interrupted/failed writes and failed opens, at every byte position",
 "No test writes an image, and none makes a write fail.",
 ['crates/dmm-tools/src/dmi.rs'],
 [('png encoder finished and errors propagated','crates/dmm-tools/src/dmi.rs to_write')],
 observe=['return value of the save','decoded bytes of the destination file'])
p('C08','Parsing does not depend on how source bytes are delivered',
 "Parsing and linting an environment gives the same object tree and the same diagnostics, in the same order and with the same locations, however the operating system splits or interrupts the reads of the environment, included and configuration files, whatever order it lists directories in, and whatever seeds the process's hash tables draw.",
 [FS,IN,CF],"every environment, every splitting/interruption of reads, every directory order, every hash seed",
 "Tests parse in-memory strings or a small set of files with default hash seeds in one run and never compare runs; seed- or order-dependence is invisible in one run.",
 ['crates/dreammaker/src/preprocessor.rs','crates/dreammaker/src/lexer.rs','crates/dreammaker/src/config.rs','crates/dreamchecker/src/lib.rs','crates/dreamchecker/src/main.rs'],
 [('ordered collections and explicit sorting before reporting','crates/dreamchecker/src/lib.rs'),('whole-file buffering','crates/dreammaker/src/lexer.rs')],
 observe=['dreamchecker standard output and error','exit status'],hook=HOOK)
p('C09','No unreadable source file goes unreported',
 "If the environment file, its configuration file or any file it includes (directly or indirectly) cannot be opened or completely read, the linter says so naming the file and exits with a non-zero status; everything else is analysed as if only that file were missing. A clean exit therefore means that every included file was read in full.",
 [FS,IN],"every environment, every include in it, every open/read failure at any position of the file",
 "Tests never make an included file's read fail part-way, and the test environments have no failing I/O.",
 ['crates/dreammaker/src/preprocessor.rs','crates/dreammaker/src/lexer.rs','crates/dreammaker/src/error.rs','crates/dreamchecker/src/main.rs'],
 [('include errors registered as diagnostics','crates/dreammaker/src/preprocessor.rs prepare_include_file'),('exit status from diagnostics count','crates/dreamchecker/src/main.rs')],
 observe=['diagnostics printed','exit status'],hook=HOOK)
p('C10','A torn or damaged source file never crashes or hangs the parser',
 "Whatever prefix or damaged copy of a source file the disk returns, parsing and linting the environment terminates after a bounded amount of work and reports through diagnostics and the exit status; it never crashes, aborts or loops.",
 [CP,IN],"every truncation point and small corruption of any file in the environment",
 "The parser tests use well-formed snippets and a few chosen errors; the truncation points and corruptions of even one file are too many to sample by hand.",
 ['crates/dreammaker/src/lexer.rs','crates/dreammaker/src/indents.rs','crates/dreammaker/src/preprocessor.rs','crates/dreammaker/src/parser.rs','crates/dreamchecker/src/lib.rs'],
 [('error recovery in lexer, preprocessor and parser','crates/dreammaker/src')],
 observe=['process termination','exit status'],hook=HOOK)
p('C11','Generated documentation does not depend on the run',
 "Generating documentation for the same environment twice yields the same set of files with the same bytes and the same console report, whatever order the operating system lists directories in, however it splits or interrupts reads, and whatever seeds the process's hash tables draw.",
 [CF,FS,IN],"every environment, every directory order, read splitting and hash seed",
 "Documentation generator has no test at all; one run cannot show order dependence.",
 ['crates/dmdoc/src/main.rs','crates/dmdoc/src/template.rs','crates/dreammaker/src/preprocessor.rs'],
 [('ordered maps for modules, types and macros','crates/dmdoc/src/main.rs')],
 observe=['files in the output directory','console output'],hook=HOOK)
p('C12','Documentation success means complete documentation',
 "When the documentation generator exits with status zero, every page and resource it should produce exists inside the output directory with exactly the bytes a fault-free run writes, nothing is written elsewhere, and every link between pages leads to a page that exists; any failure to read the environment file or a documentation file, create a directory or write a page makes the exit status non-zero. An included source or configuration file which cannot be read is reported by name, and everything else is documented as if it were missing. A dry run never creates or changes any file, and exits with status zero exactly when it reports no broken cross-link; every cross-link to nothing is reported.",
 [FS,IN],"every environment, every failing or short read, directory creation and write at any position; any number of broken cross-links",
 "There are no tests of the generator; a healthy disk never exercises the failing writes.",
 ['crates/dmdoc/src/main.rs','crates/dmdoc/src/template.rs'],
 [('io::Result propagated to the process exit status','crates/dmdoc/src/main.rs'),('diagnostic count as dry-run exit status','crates/dmdoc/src/main.rs')],
 observe=['exit status','files in the output directory'],hook=HOOK)
p('C13','Language-server messages survive any splitting of the byte streams',
 "The language server processes the same messages and sends the same replies however the client's byte stream is split or interrupted on input and however the operating system splits its writes; every message it emits is a complete, correctly framed message, never interleaved with another even when several threads report at once.",
 [FS,SC,HI],"every splitting of input and output, every interleaving of the server's threads, every message sequence including batches and malformed content",
 "The server has no test; framing bugs need a message split at a particular byte or two threads writing at once.",
 ['crates/dm-langserver/src/jrpc_io.rs','crates/dm-langserver/src/main.rs'],
 [('Content-Length framing under the stdout lock','crates/dm-langserver/src/jrpc_io.rs')],
 observe=['bytes on standard output'],hook=HOOK)
p('C14','Every language-server request gets exactly one response',
 "For every history of client messages, each request with an id receives exactly one response with that id, a result or an error, within a bounded number of steps; notifications receive none, requests before initialisation and after shutdown are refused with an error, and the process exits with status zero exactly when it was shut down before being told to exit.",
 [HI,SC,FS],"every sequence of valid, unknown, malformed, premature and late messages, under every schedule and with unreadable files",
 "The server has no test; it depends on message histories and background-thread timing.",
 ['crates/dm-langserver/src/main.rs','crates/dm-langserver/src/macros.rs','crates/dm-langserver/src/jrpc_io.rs'],
 [('jsonrpc dispatch and status machine','crates/dm-langserver/src/main.rs handle_input')],
 observe=['responses on standard output','exit status'],hook=HOOK)
p('C15','The server sees exactly the text the editor has open',
 "After any history of opening, incrementally editing and closing documents, every answer about a document is the answer a freshly started server gives when the document is opened with the text the editor now has; while a document is closed, answers reflect the file on disk. Edits use the protocol's line and UTF-16 column positions and include multi-line and non-ASCII text.",
 [HI,IN],"every history of open/change/close operations over several documents, with arbitrary Unicode text and edit ranges",
 "The document store has no test; position arithmetic fails only for particular combinations of edits and characters.",
 ['crates/dm-langserver/src/document.rs','crates/dm-langserver/src/main.rs'],
 [('document store with UTF-16 offset arithmetic','crates/dm-langserver/src/document.rs')],
 observe=['responses about documents (symbols, hover, folding, etc.)'],hook=HOOK)
p('C16','Published diagnostics settle to those of the current sources',
 "Once the client stops sending and background analysis has finished, the diagnostics last published for each file are exactly those a freshly started server publishes for the current sources; results of an analysis of superseded sources never overwrite those of a newer one, and files whose problems are gone are cleared.",
 [SC,HI],"every interleaving of saves, re-parses and background analysis completion",
 "The server has no test; staleness needs an older analysis finishing after a newer one was started.",
 ['crates/dm-langserver/src/main.rs','crates/dm-langserver/src/background.rs'],
 [('background analysis publishing diagnostics','crates/dm-langserver/src/main.rs'),('issue-set diffing to clear stale files','crates/dm-langserver/src/main.rs')],
 observe=['textDocument/publishDiagnostics notifications'],hook=HOOK)
p('C17','Debug-adapter messages are uniquely and increasingly numbered',
 "On every debug-adapter connection the messages sent by the adapter carry strictly increasing sequence numbers in the order they appear on the wire, each client request is answered by exactly one response naming it, and each message is whole and correctly framed, whichever threads send at the same time.",
 [SC,HI,FS],"every interleaving of the request thread, debuggee reader threads and process watcher, and every splitting of socket reads and writes",
 "The adapter has no test; out-of-order numbering needs two threads between numbering and writing.",
 ['crates/dm-langserver/src/debugger/mod.rs','crates/dm-langserver/src/jrpc_io.rs'],
 [('sequence counter and stream lock','crates/dm-langserver/src/debugger/mod.rs')],
 observe=['debug adapter socket bytes'],hook=HOOK)
p('C18','A debugged process ends exactly once',
 "For a launched game process, the debug adapter reports its exit to the client at most once and with the real exit code (-1 if it was killed by a signal), exactly once if it ended while the client was still connected, whether it had been detached from, killed or neither; and it reports session termination at least once and never before ending was requested or observed; a kill or detach request racing with the process's own exit never signals a process that has already been collected.",
 [SC,HI],"every interleaving of process exit, kill, detach and disconnect",
 "There is no test; the races are between the watcher thread and the request thread.",
 ['crates/dm-langserver/src/debugger/launched.rs','crates/dm-langserver/src/debugger/mod.rs'],
 [('launched-process state machine under a mutex','crates/dm-langserver/src/debugger/launched.rs')],
 observe=['debug adapter events','signals sent'],hook=HOOK)
p('C19','Debug-server answers are matched to their own requests',
 "Every answer the debug adapter gives to its client is computed from the debuggee's reply to that very query: a late, missing or lost reply leads to an error or a disconnection, never to a later query being answered with an earlier query's reply; and while a connected debuggee answers in time, its answers do reach the client. When the debuggee connection ends for any reason the client is told that the session terminated, and the adapter neither hangs nor dies.",
 [FS,SC,HI],"every delay, loss, truncation, reset and splitting of the debuggee's byte stream, at every point of a session",
 "There is no test with a debuggee; the failure needs a reply delayed past the time-out followed by another query.",
 ['crates/dm-langserver/src/debugger/auxtools.rs','crates/dm-langserver/src/debugger/extools.rs','crates/dm-langserver/src/debugger/mod.rs'],
 [('length-prefixed/NUL-terminated framing and request/response channels','crates/dm-langserver/src/debugger')],
 observe=['debug adapter responses and events'],hook=HOOK)
p('C20','A command that succeeds has delivered its whole, correct report',
 "When dreamchecker, or the map tool's list-passes, diff-maps, map-info or render-many, exits successfully, the whole report it was asked for has reached its standard output, and it says what the files hold: diff-maps lists exactly the tiles in which two maps differ, map-info gives each map's size and number of keys, the linter reports what a fault-free run reports, and every image render-many says it wrote is there, complete and in order. If the report cannot be written, or a file it is about cannot be read, the exit status says so. Writes which are only cut short or interrupted change nothing.",
 [FS,IN],"every set of maps and sources, every sequence of short, interrupted and failed writes of the report at every byte position, and of reads of its inputs",
 "No test runs these commands; a report lost on a full disk or closed pipe behind a successful exit status cannot be seen on a healthy system.",
 ['crates/dmm-tools-cli/src/main.rs','crates/dreamchecker/src/main.rs','crates/dmm-tools/src/dmm.rs'],
 [('report writers and exit status of the commands','crates/dmm-tools-cli/src/main.rs'),('linter report, JSON summary and exit status','crates/dreamchecker/src/main.rs')],
 observe=['standard output','exit status','files in the output directory'],hook=HOOK)
# pure functions: listed, not claimed
p('C30','Constant folding agrees with DM semantics','Every constant expression the parser evaluates has the value the DM language gives it.',
 [IN],'every constant expression','Tests sample a few expressions.',['crates/dreammaker/src/constants.rs'],[('constant folder','crates/dreammaker/src/constants.rs')])
p('C31','Parsing follows DM syntax and precedence','Every well-formed source text is parsed into the tree its DM grammar and operator precedence prescribe.',
 [IN,'programs'],'every source text','Tests sample a few snippets.',['crates/dreammaker/src/parser.rs','crates/dreammaker/src/indents.rs'],[('recursive-descent parser','crates/dreammaker/src/parser.rs')])
p('C32','Interval-tree queries return exactly the overlapping entries','After any sequence of insertions, every range query returns exactly the stored entries whose range overlaps it, in order.',
 [HI,IN],'every sequence of insertions and queries','Tests use fixed sequences.',['crates/interval-tree/src'],[('AVL interval tree','crates/interval-tree/src')])
p('C33','Object-tree inheritance lookups follow the parent chain','Every variable or proc lookup on a type yields the definition on the nearest ancestor that has one.',
 [IN,'programs'],'every object tree','Tests use a few trees.',['crates/dreammaker/src/objtree.rs'],[('object tree builder','crates/dreammaker/src/objtree.rs')])
p('C34','Lints are reported exactly where their rule is broken','Each lint of the static analyser is reported at every place its documented rule is violated and nowhere else.',
 [IN,'programs'],'every program','Tests check a few dozen snippets.',['crates/dreamchecker/src/lib.rs'],[('analysers','crates/dreamchecker/src/lib.rs')])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
