SRV = 'src/stack_dec/thot_server.cc'; TD = 'src/stack_dec/ThotDecoder.cc'; BS = 'src/nlp_common/BasicSocketUtils.cc'
BASE_NOTE = 'Seeded random search: a clean batch is evidence for the schedules, histories and faults sampled, not a proof. Trusts the simulated operating system (threads, sockets, files) and the reference obtained from a sequential run of the same code. '

prop('P01', 'Concurrent server requests have a sequential explanation',
 'When several clients use one translation server at the same time, every reply equals the reply the same request would get in some one-at-a-time execution of all requests that respects their real-time order. Training, error-model training, translation, verification, interactive sessions, resets and model saving all take part, and the model files saved at the end are those of that same order.',
 ['schedules', 'histories'], 'Every interleaving of the server threads and every mix of requests from concurrent clients, over seventeen decoder configurations.',
 'The unit tests never start the server nor two threads; the orders of concurrent requests are far too many to sample by hand.',
 [SRV, TD, 'src/stack_dec/ThotDecoder.h', 'src/stack_dec/ThotDecoderPerUserVars.h'],
 [('one thread per connection', SRV + ' start_server/process_request'), ('writers exclude readers through a mutex and a count of running readers', TD + ' increase_non_atomic_ops_running / wait_on_non_atomic_op_cond'), ('one mutex per user', TD + ' per_user_mut_vec')],
 [('alignment, language, error and phrase models', 'shared by every user, changed by training'), ('per-user session', 'word graph, translator and prefix of one user')], ['bytes of every reply', 'model files after a save request'])
NOTES['P01'] = BASE_NOTE + 'The search for a sequential order is complete per history (memoised over sets of requests, re-executed in forked reference servers) up to a fork budget; histories over the budget count as unchecked.'

prop('P02', 'Every acknowledged training pair is learned exactly once',
 'A sentence pair whose training request was acknowledged enters the models exactly once, whatever other requests, dropped connections, slow readers or network faults happen meanwhile. A request that was never acknowledged is learned at most once, and a pair nobody sent is never in the models.',
 ['schedules', 'fault_sequences', 'histories'], 'Every interleaving of training with other requests, and every point at which a client or the network may drop the connection.',
 'Tests train single-threaded and never lose a connection; a lost or doubled update needs an interleaving or a fault between the update and its reply.',
 [SRV, TD, 'src/incr_models', 'src/sw_models'],
 [('request read completely before it is executed', BS + ' readStr/readInt'), ('training is exclusive', TD + ' onlineTrainSentPair')], [('stored sentence pairs', 'corpus kept by the incremental alignment models, saved with them')], ['sentence pair files of the saved alignment models'])
NOTES['P02'] = BASE_NOTE + 'Counts the pairs in the saved alignment model files and compares them with what was acknowledged; the later replies are compared with a sequential execution too. The n-gram counts of the saved language model are compared with base counts plus those of the acknowledged references.'

prop('P03', 'Users of a server do not see each other\'s sessions',
 'What a user of the interactive server receives depends on the models and on that user\'s own requests only, never on the requests of other users, as long as nobody trains. In an interactive session every suggestion starts with all the text the user typed since the session or the last reset, and equals the suggestion a fresh session gives for the same sentence and text.',
 ['schedules', 'histories'], 'Every interleaving of several users\' translation and interactive sessions, with any user identifiers and any typed text.',
 'The tests drive one decoder object for one user; leaking state between users needs interleaved sessions.',
 [SRV, TD, 'src/error_correction'],
 [('user id mapped to its own state and lock', TD + ' get_vecidx_for_user_id/init_idx_data'), ('prefix kept per user', 'src/stack_dec/ThotDecoderPerUserVars.h')], [('prefix and word graph of a session', 'belongs to one user identifier')], ['replies of interactive and translation requests'])
NOTES['P03'] = BASE_NOTE + 'Metamorphic oracle: each client is re-run alone, each suggestion is re-obtained in a fresh session, and a reply may not depend on what the same user asked before in another mode.'

prop('P04', 'Messages survive any fragmentation of the byte stream',
 'The reply to a request does not depend on how the network cuts the request or the reply into pieces: short reads, short writes, interrupted calls, delays and tiny socket buffers change nothing. Strings of any length and content are delivered whole, and exactly one complete reply is sent per request.',
 ['fault_sequences', 'inputs', 'schedules'], 'Every split of request and reply bytes, every interrupted or partial socket call, and messages from empty to longer than any buffer.',
 'No test opens a socket; loopback hardly ever produces short reads, so ordinary use does not either.',
 [BS, 'src/nlp_common/BasicSocketUtils.h', SRV, 'src/stack_dec/thot_client.cc'],
 [('length-prefixed strings', BS + ' writeStr/readStr'), ('loops over partial transfers', BS)], [], ['bytes of the reply stream'])
NOTES['P04'] = BASE_NOTE + 'Replies are parsed strictly (nothing missing, nothing extra) and compared with a sequential execution over an undisturbed network.'

prop('P05', 'A misbehaving client cannot harm the others or the server',
 'A client that disconnects anywhere in its request or reply, resets the connection, stops sending in the middle, reads slowly or sends unknown request types, absurd lengths or garbage affects only its own connection. The server keeps running, the other clients get the replies they would have got otherwise, and the incomplete request has no effect on the models.',
 ['fault_sequences', 'inputs', 'schedules'], 'Every cut point of every request and reply, garbage messages, and every interleaving with well-behaved clients.',
 'No test plays a broken client; the effect depends on the byte at which the connection fails and on what runs meanwhile.',
 [SRV, BS],
 [('failed reads raise and end the request', BS), ('exceptions end the request thread only', SRV + ' process_request'), ('SIGPIPE ignored', SRV + ' main')], [], ['replies of the other clients', 'exit status of the server', 'saved models'])
NOTES['P05'] = BASE_NOTE + 'One known finding (see known-findings.txt): a client that connects and sends nothing blocks the accept loop.'

prop('P06', 'Shutdown waits for the requests in progress',
 'When the server is told to stop, every request accepted before is still processed completely and answered as usual, then the process ends with success. It stops accepting connections, ends no matter what else is going on, and does not use anything it has already released.',
 ['schedules', 'fault_sequences'], 'Every relative timing of a stop request (or several) and the other requests, including clients that disconnect or read slowly.',
 'Stopping while requests run is a race that no test exercises.',
 [SRV], [('count of request threads with a condition', SRV + ' increase/decrease_num_threads_var, wait_on_num_threads_var_cond'), ('end request recognised by the accepting thread', SRV + ' start_server')], [('number of threads at work', 'the process may end only when it is zero')], ['replies', 'exit status'])
NOTES['P06'] = BASE_NOTE + 'Includes detection of uses of freed memory, destroyed locks and of a hang (no runnable thread, or a bounded number of simulated steps exceeded).'

prop('P07', 'Requests keep being answered: no deadlock, no lost wakeup',
 'Every complete request is eventually answered, whatever the interleaving, spurious wakeups, clock jumps, failed thread creations and failed accepts. A connection for which the system gives no thread is closed, and the requests after it are served normally.',
 ['schedules', 'fault_sequences'], 'Every schedule, every choice of the waiter that a notification wakes, and every sequence of thread-creation and accept failures.',
 'Tests are single-threaded; a lost wakeup or a lock left taken shows only in particular interleavings or after a failed system call.',
 [SRV, TD], [('readers counted, the last one wakes the writer', TD + ' decrease_non_atomic_ops_running'), ('thread creation failure handled', SRV + ' start_server')], [('locks and counters', 'released on every path')], ['liveness of each connection within a bounded number of steps'])
NOTES['P07'] = BASE_NOTE + 'Liveness means: within a bounded number of simulated steps of a fair scheduler once faults stop; a state in which every thread is blocked is reported at once.'

prop('P08', 'Request threads never race on memory',
 'No two threads of the server access the same memory without synchronisation while one of them writes, and no thread uses memory or a lock after it was released. This holds for every mix of concurrent requests, in every decoder configuration, including start and stop.',
 ['schedules', 'histories', 'configurations'], 'Every interleaving of every mix of requests, over seventeen decoder configurations.',
 'The existing tests have one thread; a race needs two requests overlapping in particular code.',
 [SRV, TD, 'src/nlp_common/ThreadSafePrint.h', 'src/nlp_common/ctimer.c'],
 [('locks around shared models and session state', TD)], [('everything reachable from the decoder', 'shared by the request threads')], ['happens-before relation over instrumented memory accesses'])
NOTES['P08'] = BASE_NOTE + 'Vector-clock happens-before over every instrumented access of the code of thot (accesses inside libc, libstdc++ and libdb/leveldb binaries are seen only at their instrumented callers).'

prop('P09', 'Saved models restart into the same server',
 'Saving the models through the server while others translate or train writes a consistent snapshot: a server started from the saved files gives the translations the running server gave, and saving again changes nothing. No acknowledged training is missing from the files and none appears twice.',
 ['schedules', 'histories'], 'Every history of training, saving and translation requests followed by a restart.',
 'Tests save and load single models with fixed content; the saved state of a server after an arbitrary history is never reloaded.',
 [TD, 'src/stack_dec', 'src/phrase_models', 'src/incr_models', 'src/sw_models'],
 [('models written one by one under the exclusive lock', TD + ' printModels')], [('model files', 'what survives a restart')], ['translations before and after the restart', 'model files'])
NOTES['P09'] = BASE_NOTE + 'Equality is of the text of the translations; scores are compared only through them. Also compares further training of the restarted server with that of the server that went on.'

prop('P10', 'Log lines of concurrent requests are written whole',
 'Every line in the verbose log of the server is one that some request writes by itself: lines of concurrent requests are never mixed, cut or lost in part.',
 ['schedules'], 'Every interleaving of verbose requests, with a possible switch inside every write.',
 'No test runs the server verbosely with two threads.',
 ['src/nlp_common/ThreadSafePrint.h', SRV, TD], [('whole lines under one lock', 'src/nlp_common/ThreadSafePrint.h')], [], ['standard error of the server'])
NOTES['P10'] = BASE_NOTE + 'Lines are compared, numbers apart, with those of a sequential execution; warnings that the model libraries write directly are excluded from the workload.'

STORE_NOTE = 'Seeded histories against a small in-memory reference table; the LevelDB or Berkeley DB library itself runs for real on the simulated disk. Crashes are crashes of the process (what it wrote stays); power failures are not claimed since thot writes without sync. '

prop('P11', 'The on-disk phrase table behaves like a phrase table',
 'The LevelDB phrase table gives for every sequence of additions, increments, lookups, clears and reopenings the counts and translation options an ideal in-memory table gives, to any number of concurrent readers. An update that completed survives a crash of the process; one that was interrupted leaves each of its records either old or new; a disk error never makes a lookup return something that was never stored.',
 ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'Every history of updates, lookups, clears and reopenings, every point at which the process may be killed, every failing system call, and every schedule of concurrent readers.',
 'The unit tests do a handful of calls on one open database; they never reopen it after a crash nor meet a failing disk.',
 ['src/phrase_models/LevelDbPhraseTable.cc', 'src/phrase_models/LevelDbPhraseTable.h'], [('phrases encoded as byte strings of fixed-width words', 'LevelDbPhraseTable.cc vectorToString/stringToVector'), ('joint and source counts updated together', 'LevelDbPhraseTable.cc incrCountsOfEntry/addTableEntry')], [('database directory', 'what survives the process')], ['results of every lookup, also after reopening'])
NOTES['P11'] = STORE_NOTE + ''

prop('P12', 'The on-disk language model table behaves like an n-gram table',
 'The LevelDB n-gram table gives for every sequence of additions, increments, lookups, clears and reopenings the counts and successors an ideal in-memory table gives, to any number of concurrent readers. An update that completed survives a crash of the process, an interrupted one leaves each record old or new, and a disk error never invents a count.',
 ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'Every history of updates, lookups, clears and reopenings, every point at which the process may be killed, every failing system call, and every schedule of concurrent readers.',
 'The unit tests do a handful of calls on one open database; they never reopen it after a crash nor meet a failing disk.',
 ['src/incr_models/LevelDbNgramTable.cc', 'src/incr_models/LevelDbNgramTable.h'], [('n-grams encoded as byte strings of fixed-width words', 'LevelDbNgramTable.cc vectorToString/stringToVector')], [('database directory', 'what survives the process')], ['results of every lookup, also after reopening'])
NOTES['P12'] = STORE_NOTE + 'Word identifiers up to 254^3-2.'

prop('P13', 'The on-disk lexical table behaves like a lexical table',
 'The LevelDB lexical table of the alignment models gives for every sequence of updates, lookups, clears and reopenings the numerators, denominators and target words an ideal in-memory table gives, to any number of concurrent readers. A completed update survives a crash of the process, an interrupted one leaves each record old or new, a disk error never invents a value, and a failing open never destroys the table.',
 ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'Every history of updates, lookups, clears and reopenings, every point at which the process may be killed, every failing system call, and every schedule of concurrent readers.',
 'The unit tests do a handful of calls on one open database; they never reopen it after a crash nor meet a failing disk.',
 ['src/sw_models/IncrLexLevelDbTable.cc', 'src/sw_models/IncrLexLevelDbTable.h'], [('numerator and denominator in separate records', 'IncrLexLevelDbTable.cc setLexNumer/setLexDenom'), ('load leaves the files alone when it fails', 'IncrLexLevelDbTable.cc load')], [('database directory', 'what survives the process')], ['results of every lookup, also after reopening'])
NOTES['P13'] = STORE_NOTE + ''

prop('P14', 'The on-disk bilingual dictionary behaves like a dictionary',
 'The LevelDB dictionary gives for every sequence of additions, lookups, clears and reopenings the translation options and scores an ideal in-memory dictionary gives, to any number of concurrent readers. A completed update survives a crash of the process, an interrupted one leaves the entry old or new, and a disk error never invents an entry.',
 ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'Every history of updates, lookups, clears and reopenings, every point at which the process may be killed, every failing system call, and every schedule of concurrent readers.',
 'The unit tests do a handful of calls on one open database; they never reopen it after a crash nor meet a failing disk.',
 ['src/stack_dec/LevelDbDict.cc', 'src/stack_dec/LevelDbDict.h'], [('entry stored as text under its source phrase', 'LevelDbDict.cc addDictEntry/getOptionsForSrc')], [('database directory', 'what survives the process')], ['results of every lookup, also after reopening'])
NOTES['P14'] = STORE_NOTE + ''

prop('P15', 'The Berkeley DB phrase table behaves like a phrase table',
 'The Berkeley DB phrase table gives for every sequence of additions, increments, lookups and reopenings, by one process or by several one after the other, the counts and translation options an ideal in-memory table gives. What was stored before the table was closed is there when it is opened again.',
 ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'Every history of updates, lookups, clears and reopenings, every point at which the process may be killed, every failing system call, and every schedule of concurrent readers.',
 'The unit tests do a handful of calls on one open database; they never reopen it after a crash nor meet a failing disk.',
 ['src/phrase_models/FastBdbPhraseTable.cc', 'src/phrase_models/FastBdbPhraseTable.h', 'src/phrase_models/BdbPhraseTable.cc'], [('phrases stored in fixed-size records', 'FastBdbPhraseTable.cc'), ('flush on close', 'FastBdbPhraseTable.cc')], [('database directory', 'what survives the process')], ['results of every lookup, also after reopening'])
NOTES['P15'] = STORE_NOTE + 'Orderly closing only: neither thot nor its documentation promises anything for a Berkeley DB table whose process is killed.'

prop('P17', 'A save that fails is reported and harms nothing',
 'When the server saves its models and a disk operation fails (no space, an input/output error, a file that cannot be opened), the reply says that the save failed; a reply of success means that every model file is complete. After a failed save the server goes on answering every request as before, and the next save that meets no error writes the complete models.',
 ['fault_sequences', 'histories', 'schedules'], 'Every write, open and rename of every model file that may fail, in every history of training, translation and saving requests.',
 'The tests save to a healthy disk; which of the thousands of writes fails decides what is noticed.',
 [TD, 'src/stack_dec/StdFeatureHandler.cc', 'src/phrase_models', 'src/incr_models', 'src/sw_models'],
 [('result of every model writer passed up to the reply', TD + ' printModelsFeatImpl')], [('model files', 'written in place')], ['reply to the save request', 'model files after it', 'later replies'])
NOTES['P17'] = BASE_NOTE + 'The files after an acknowledged save are compared with those that a fault-free server writes after the same requests.'

prop('P16', 'Conversion to the on-disk tables is complete or reported, and can be repeated',
 'A tool that converts a text model into an on-disk table (phrase table, language model, lexical table, dictionary, Berkeley DB phrase table) and ends with success has stored every well-formed entry of its input, as an ideal converter would; when it cannot it ends with an error. Running it again after it was killed or failed gives the complete table, whatever the killed run left.',
 ['fault_sequences', 'crash_points', 'histories'], 'Every input, every failing system call and every point at which the converter may be killed, followed by any number of further runs.',
 'No test runs the conversion tools.',
 ['src/phrase_models/thot_ttable_to_leveldb.cc', 'src/incr_models/thot_ngram_to_leveldb.cc', 'src/sw_models/thot_lextable_to_leveldb.cc', 'src/stack_dec/thot_dict_to_leveldb.cc', 'src/phrase_models/thot_ttable_to_fbdb.cc'],
 [('the old table is removed first', 'init() of the LevelDB tables'), ('every store reports its status', 'storeData of the LevelDB tables')], [('database directory', 'what an interrupted run leaves')], ['exit code of the tool', 'contents of the table afterwards'])
NOTES['P16'] = STORE_NOTE + 'The Berkeley DB converter is run without crashes (see P15), and into a new file.'

TOOL_NOTE = 'The real main functions of 26 programs run on generated inputs inside the simulator; the reference is the same program undisturbed on the same input. Failing reads are not injected (thot takes a read error for the end of the file, see DESIGN.md), and the weight-update tools, which change their input in place, are not restarted after a crash. '

prop('P18', 'A command-line tool never claims success for an output it did not write',
 'When a command-line tool (training, extraction, sorting, merging, pruning, filtering, decoding, aligning, scoring, weight updating) ends with success, all its output files and its standard output are complete: the same as when nothing fails. If writing any part of them fails (disk full, input/output error, file that cannot be created, closed or failing standard output), the tool ends with an error in finite time. Running it again after it was killed at any point gives the same output as if it had not been killed.',
 ['fault_sequences', 'crash_points'], 'Every write, open, close and flush that may fail and every point at which the tool may be killed, for every input.',
 'The tests run the tools on a healthy disk and look at what is written.',
 ['src/sw_models', 'src/phrase_models', 'src/incr_models', 'src/stack_dec', 'src/error_correction'],
 [('status of every output stream checked before success', 'main functions of the thot_* programs'), ('temporary files', 'src/phrase_models/thot_alig_op.cc, weight updates')], [('output files', 'what the next tool of the pipeline reads')], ['exit code', 'output files', 'standard output'])
NOTES['P18'] = TOOL_NOTE

prop('P19', 'Merging partial count tables loses and invents nothing',
 'However the counts of a model are split into sorted tables, and in whatever order and grouping those are merged, the merged table holds for every entry the sum of its counts over the tables (in the logarithmic domain, up to rounding), in sorted order, and no other entry. Tables without entries change nothing.',
 ['histories', 'schedules'], 'Every split of every table, every order and every tree of merges.',
 'Tests merge one small example, if any; the parallel training scripts choose another split every time.',
 ['src/sw_models/thot_merge_bin_ilextable.cc', 'src/sw_models/thot_merge_bin_ihmmatable.cc', 'src/sw_models/thot_merge_bin_iibm2atable.cc', 'src/sw_models/thot_sort_bin_ilextable.cc'],
 [('k-way merge with a priority queue', 'thot_merge_bin_*.cc getNextEntry'), ('denominator counted once per table', 'thot_merge_bin_*.cc main')], [('sorted tables of the chunks', 'partial results of parallel training')], ['merged table'])
NOTES['P19'] = 'The real sort and merge programs run inside the simulator over generated chunk tables in a seeded order and grouping; the oracle sums the counts itself. '

prop('P20', 'The command-line client reports what the server did',
 'When thot_client ends with exit code 0, the server executed its request exactly as if it had come alone at some moment of the run, and the complete reply was printed. If the connection cannot be made or is lost, the request is refused, the server dies or stops, or the reply cannot be printed, the client ends with a nonzero exit code, in finite time; it never prints the reply of another request.',
 ['fault_sequences', 'schedules', 'histories'], 'Every point at which the connection is reset, the server process dies, the server refuses a thread or the output of the client fails, and every interleaving with other clients.',
 'The tests start neither the server nor the client.',
 ['src/stack_dec/thot_client.cc', SRV, BS],
 [('status of every socket call checked', BS), ('one request per run', 'src/stack_dec/thot_client.cc process_request')], [('exit code and standard output of the client', 'all that a script that drives thot sees')], ['exit code of thot_client', 'standard output of thot_client', 'history of requests'])
NOTES['P20'] = BASE_NOTE + 'The real main function of thot_client runs in simulated processes of its own against the real server.'

prop('P21', 'A server with its models on disk answers like one with them in memory',
 'A translation server whose phrase table, language model or alignment models live in LevelDB tables, converted with the tools of the package, gives to any mix of concurrent requests the replies that the server with the same models in memory gives (including training for the models that can be trained there), and after its models are saved a new server started from its files translates in the same way. Closing, loading and saving never lose the tables.',
 ['histories', 'schedules'], 'Every mix and interleaving of requests, for every combination of models moved to disk, followed by a restart.',
 'The tests of the on-disk tables never put them under a decoder, train them through the server, nor load them in a second process.',
 ['src/incr_models/IncrJelMerLevelDbNgramLM.cc', 'src/incr_models/LevelDbNgramTable.cc', 'src/phrase_models/LevelDbPhraseModel.cc', 'src/sw_models/IncrLexLevelDbTable.cc', 'src/incr_models/vecx_x_incr_enc.h', TD],
 [('same counts behind the same interface', 'BaseIncrCondProbTable / BasePhraseTable / LexTable'), ('codes of words agree with those of the table', 'vocabulary files next to the database')], [('database directories', 'updated online'), ('vocabulary files', 'written when the models are saved')], ['bytes of every reply', 'replies after a restart'])
NOTES['P21'] = BASE_NOTE + 'The reference is the in-memory server. Phrase tables in LevelDB are only read (thot cannot train them online). The server ends in order: what a killed server had trained but not saved is not compared.'

prop('P22', 'Damaged or missing files are refused or tolerated, never a crash or a hang',
 'When a model, configuration or input file is missing, empty, truncated at any point, partly zeros or unreadable (as a crash, a power failure or a full disk during a save leaves it), a command-line tool given it ends by itself within bounded work, with a result or with a reported error; a server started on such models either refuses to start with an error and a nonzero exit code, or serves every request it accepts. No memory fault, no endless loop, no deadlock.',
 ['crash_points', 'fault_sequences', 'histories'], 'Every point at which a save or a tool may be cut short, every file it may concern, and every later use of those files.',
 'The tests only read files that are complete.',
 ['src/sw_models', 'src/phrase_models', 'src/incr_models', 'src/stack_dec', 'src/error_correction', TD],
 [('loaders check what they read', 'load functions of the models'), ('result of every load passed up', TD + ', main functions')], [('model files', 'written in place, so that a crash leaves partial ones'), ('input files', 'outputs of earlier tools')], ['how the program ends', 'replies of a server that started'])
NOTES['P22'] = 'Damage: files left by a kill or a power failure during a save by the real server, and truncated, missing, empty, zero-tailed files or a directory in their place, for the real server and the main functions of 26 programs. The answers a damaged model gives are not judged, only that there are some. Weight updates whose search does not end within the step bound on odd input are abandoned, not judged. '

prop('P23', 'Distributed work gives the result of the single program, or an error',
 'A script that splits its work over processors or batch jobs (counting n-grams, training alignment and phrase models, aligning, translating, filtering, measuring perplexity) ends with success only if its output is what the single program gives on the whole input. If a step fails, a job is killed, the disk is full or a submission is refused, it ends with an error in finite time, and the same command run again gives the right output. If nothing fails it succeeds, in whatever order the jobs run and even if jobs are started again, and leaves no temporary files.',
 ['schedules', 'fault_sequences', 'inputs'], 'Every order in which the jobs and background processes go on, every command of every job that may fail, be killed or meet a full disk, refused submissions and lagging job queries, for every input, number of processors and set of options.',
 'No test runs the scripts; which of hundreds of commands in which job fails decides what is noticed.',
 ['utils/nlp_common', 'utils/sw_models', 'utils/phrase_models', 'utils/incr_models', 'utils/stack_dec'],
 [('completion marks of the jobs', 'utils/nlp_common/thot_simple_sched_lib.sh, thot_adv_sched_lib.sh: create_script, launch, sync'), ('split into fragments and merge in order', 'the thot_pbs_* scripts')], [('shared directory', 'fragments, logs and completion marks of the jobs'), ('output files', 'written when everything succeeded')], ['exit status of the script', 'output files', 'temporary directories'])
NOTES['P23'] = 'The real scripts (instantiated as their Makefile does) and the real programs run as real processes under a simulator that answers every external command: one process goes on at a time in a seeded order, and each command may fail, be killed, cut its output or meet a full disk; batch system, clock and sleeping are simulated. The reference is the single program, or a count made by the check itself. Replay by hand: python3 cluster/search.py FILE. Interleaving is controlled at sleep, date, rm, cp, mv, mkdir, cat and job ends, not inside a command; redirections and bash builtins do not fail.'

prop('P24', 'Training, tuning and preparation give a complete system or report an error',
 'When a command that trains, tunes or prepares a system (thot_lm_train, thot_tm_train, thot_ll_weight_upd, thot_smt_tune, thot_sys_from_scratch, thot_prepare_sys_for_test, thot_gen_cfg_file) ends with success, everything it promises is there: descriptors, weights, word prediction files, alignment models, alignments, tables and tuned weights, each of them what the options and the input prescribe, and a decoder can use the result. If a step fails, a command is killed, the disk is full or a submission is refused, it ends with an error in finite time, and the same command run again succeeds. It leaves its input and, when nothing fails, no temporary files; a model that is added leaves those that were there.',
 ['fault_sequences', 'schedules', 'inputs'], 'Every external command of every stage that may fail, be killed or meet a full disk, every order of the jobs, for every corpus (with empty lines and words repeated), set of options and number of processors.',
 'No test runs the scripts; the stages have dozens of steps whose failure must be passed on through three levels of scripts.',
 ['utils/exper', 'utils/phrase_models/thot_pbs_gen_batch_phr_model.sh', 'utils/nlp_common'],
 [('every stage is checked and passed on', 'utils/exper/thot_lm_train.sh, thot_tm_train.sh, thot_prepare_sys_for_test.sh, utils/phrase_models/thot_pbs_gen_batch_phr_model.sh'), ('descriptor written last', 'utils/exper/thot_tm_train.sh create_desc_file, thot_lm_train.sh create_desc_files')], [('model directory', 'descriptor, main model and additional models')], ['exit status', 'model directory', 'configuration file', 'translations of a decoder that uses the result'])
NOTES['P24'] = 'The cluster world of P23 with the commands that users type. Each file is computed again from the files it depends on (by the single program, or by the check), and the decoder loads the result. Fault granularity as in P23. Adding a model again after a failed attempt may leave the failed one listed: only its completeness is checked then.'
