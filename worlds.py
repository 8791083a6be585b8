"""Which simulated worlds decide which property, with budgets in seconds of search."""
SERVER_REAL = ['thot_server main loop, request threads, ThotDecoder, decoder, models, word graphs, loaders, savers, BasicSocketUtils, ThreadSafePrint: compiled unmodified from /repo with every memory access instrumented']
SERVER_STUB = ['threads, mutexes, conditions and time (cooperative fibers under the seeded scheduler)', 'sockets (in-memory connections with bounded buffers)', 'file system (in memory, with page cache and durability model)', 'dlopen (the model modules are linked in)', 'clients (scripted by the simulator, speaking the real wire protocol)']
ASSUME = ['the simulated OS behaves like POSIX as far as thot uses it (see DESIGN.md)', 'a clean batch is evidence, not proof: schedules and faults are sampled']
STORE_REAL = ['the LevelDB and Berkeley DB model classes of thot, compiled unmodified and instrumented', 'the installed leveldb and libdb shared libraries (their system calls, threads and locks go through the simulator)']
STORE_STUB = ['threads, locks, time (seeded scheduler)', 'file system (in memory; page cache, torn and lost writes, disk errors, full disk)', 'the program using the classes (scripted histories)']
TOOLS_REAL = ['the main functions of the programs and everything they call, compiled unmodified from /repo and instrumented', 'the installed leveldb and libdb shared libraries (conversion tools)']
TOOLS_STUB = ['file system (in memory; failing, short and refused operations, full disk), standard input and output, temporary files', 'process exit, abort and crash', 'the scripts that chain the programs (scripted by the simulator)']
STP = ['store-reopened', 'store-second-open-refused', 'store-cleared']
STC = ['store-crash-inside-an-update', 'store-crashed-update-partly-durable', 'store-recovered-after-crash', 'store-crash-inside-clear', 'store-write-lost-by-disk-fault', 'store-crash-inside-open', 'store-open-failed-by-fault']
def P(worlds, quick=20, thorough=1500, probes=(), real=SERVER_REAL, stub=SERVER_STUB, assume=ASSUME, level='exploration'):
    return dict(worlds=worlds, quick=quick, thorough=thorough, probes=list(probes), real=real, stub=stub, assume=assume, level=level)

PROPS = {
    'P01': P(['server:0'], probes=['history-with-overlapping-requests-explained', 'training-overlapped-another-request']),
    'P02': P(['server:1'], probes=['trained-pairs-found-in-the-saved-model', 'pending-request-in-history']),
    'P03': P(['server:2'], probes=['client-compared-with-running-alone', 'prefix-reply-checked', 'prefix-reply-compared-with-a-fresh-session']),
    'P04': P(['server:3']),
    'P05': P(['server:4']),
    'P06': P(['server:5'], probes=['request-in-progress-at-shutdown']),
    'P07': P(['server:6', 'server:10']),
    'P08': P(['server:7']),
    'P09': P(['server:8'], probes=['restart-from-saved-models-compared']),
    'P10': P(['server:9'], probes=['log-lines-checked']),
    'P11': P(['store:0', 'store:10', 'store:20'], probes=STP + STC, real=STORE_REAL, stub=STORE_STUB),
    'P12': P(['store:1', 'store:11', 'store:21'], probes=STP + STC, real=STORE_REAL, stub=STORE_STUB),
    'P13': P(['store:2', 'store:12', 'store:22'], probes=['store-reopened', 'store-cleared'] + STC, real=STORE_REAL, stub=STORE_STUB),
    'P14': P(['store:3', 'store:13', 'store:23'], probes=STP + STC, real=STORE_REAL, stub=STORE_STUB),
    'P15': P(['store:4'], probes=['store-reopened'], real=STORE_REAL, stub=STORE_STUB),
    'P16': P(['store:30', 'store:31', 'store:32', 'store:33', 'store:34'], probes=['conversion-checked', 'conversion-failed-and-said-so', 'conversion-rerun-after-crash'], real=TOOLS_REAL, stub=TOOLS_STUB),
    'P17': P(['server:10'], probes=['failed-save-reported', 'history-with-overlapping-requests-explained']),
    'P18': P(['tools:0'], probes=['tool-output-same-under-faults', 'tool-failure-reported', 'tool-run-again-after-crash'], real=TOOLS_REAL, stub=TOOLS_STUB),
    'P19': P(['tools:1'], probes=['chunk-tables-merged'], real=TOOLS_REAL, stub=TOOLS_STUB),
    'P20': P(['server:11'], probes=['client-program-reported-success', 'client-program-reported-failure'], real=SERVER_REAL + ['thot_client main function'], stub=SERVER_STUB),
    'P21': P(['server:12'], probes=['models-moved-to-leveldb', 'restart-from-saved-models-compared', 'training-overlapped-another-request'], real=SERVER_REAL + ['the conversion programs (main functions)', 'the installed leveldb shared library']),
    'P22': P(['server:13', 'tools:2'], probes=['damaged-models-refused', 'damaged-models-served', 'server-killed-while-saving', 'model-file-damaged', 'tool-input-damaged', 'tool-served-damaged-input', 'tool-refused-damaged-input'], real=SERVER_REAL + TOOLS_REAL[:1], stub=SERVER_STUB),
    'P23': P(['cluster'], quick=90, thorough=1500,
             real=['the bash and gawk scripts of utils (instantiated as their Makefile does) and the scheduling libraries they include', 'the programs of thot that they call, compiled from /repo', 'bash, gawk, sort, split and the other system commands, for what they compute'],
             stub=['the batch system (qsub, qstat), the clock and sleeping (simulated)', 'the order in which jobs and background processes go on (one at a time, seeded)', 'failing, killed, cut and full-disk executions of every external command (decided by the simulator)'],
             assume=['processes interleave at the external commands sleep, date, rm, cp, mv, mkdir and cat and at the ends of jobs', 'redirections and builtin commands of bash do not fail', 'a clean batch is evidence, not proof: schedules and faults are sampled']),
    'P24': P(['cluster'], quick=60, thorough=1200,
             real=['thot_lm_train, thot_tm_train, thot_sys_from_scratch, thot_prepare_sys_for_test, thot_gen_cfg_file and every script they call (instantiated as their Makefile does)', 'the programs of thot that they call, compiled from /repo', 'bash, gawk, sort, split and the other system commands, for what they compute'],
             stub=['the batch system (qsub, qstat), the clock and sleeping (simulated)', 'the order in which jobs and background processes go on (one at a time, seeded)', 'failing, killed, cut and full-disk executions of every external command (decided by the simulator)'],
             assume=['processes interleave at the external commands sleep, date, rm, cp, mv, mkdir and cat and at the ends of jobs', 'redirections and builtin commands of bash do not fail', 'a clean batch is evidence, not proof: schedules and faults are sampled']),
}
