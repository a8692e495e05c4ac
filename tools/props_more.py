prop('C02', 'A log message becomes visible to the background thread only when complete',
     'Every byte of a staged message (header and all arguments) is written before the message is made visible to the '
     'background thread, the space reserved, the bytes written and the bytes made visible are the same amount, and the '
     'recorded size equals it. This holds for every argument type of the C++17 front end and every value, including empty '
     'strings and strings limited by a static or dynamic precision. Logging threads build their messages independently of each other.',
     ['schedules', 'inputs', 'programs'],
     'every logging statement (argument types, format), all argument values, every point at which the background thread can look',
     'Tests log a handful of statements and look at the staged bytes afterwards, never at the moment of publication.',
     ['runtime/NanoLogCpp17.h', 'runtime/RuntimeLogger.h'],
     [('log()/store_argument', 'runtime/NanoLogCpp17.h'), ('finishAlloc', 'runtime/RuntimeLogger.h')],
     check=dict(technique='abstract interpretation of witness logging statements, typestate of the reservation, write-coverage of its bytes',
                level='proof',
                note='about 200 witness statements cover every scalar type alone and all pairs of representative kinds; values, string '
                     'contents and lengths (below 1 MiB) symbolic; reserve/publish replaced by their contracts (decided by C01)'))

prop('C03', 'sync() returns only after every earlier message reached the log file',
     'When sync() returns, every message whose logging call had returned before sync() was called has been encoded and its write to the log file has completed (or the operating system reported that it failed), whatever other threads log, start or exit meanwhile and however often threads wake up spuriously; threads waiting in sync() are woken once the state they wait for is reached.',
     ['schedules', 'histories'],
     'all interleavings of logging threads, thread exits, concurrent sync() calls and the background thread; spurious wake-ups',
     'Tests call sync() after single-threaded logging; the hand-shake depends on when the request arrives relative to a pass and an outstanding write.',
     ['runtime/RuntimeLogger.cc'],
     [('sync', 'runtime/RuntimeLogger.cc'), ('compressionThreadMain', 'runtime/RuntimeLogger.cc')],
     check=dict(technique='abstract interpretation of the background thread following one arbitrary message (typestate) with other threads as environment at lock points',
                level='proof', note='every path of compressionThreadMain and sync(); encoder, staging buffer and POSIX AIO by contract (C01, C08, C10, POSIX); list lengths up to 2^30; termination of sync() itself is not decided'))

prop('C04', 'Encoded output is written exactly once; buffers in flight are never touched',
     'Unless the operating system reports an error, every byte the background thread encodes is written to the log file exactly once and in order, also when a write completes only in part; every staged byte it looked at is encoded once, under the id of the buffer it came from, and released only then. At most one write is outstanding, and the buffer handed to the operating system is neither modified nor reused until that write has completed, even if waiting is interrupted by a signal.',
     ['schedules', 'fault_sequences', 'histories'],
     'all sequences of encode / submit / complete / interrupted wait, all buffer fill levels',
     'Tests replace or barely exercise asynchronous I/O; interrupted waits and slow completions do not happen in them.',
     ['runtime/RuntimeLogger.cc'],
     [('compressionThreadMain', 'runtime/RuntimeLogger.cc'), ('Encoder::swapBuffer', 'runtime/Log.cc')],
     check=dict(technique='abstract interpretation of the background thread: typestate of the asynchronous write, ownership of the output buffers, accounting of staged and encoded bytes',
                level='proof', note='outcome of every asynchronous write (in progress, complete, short, failed, refused, interrupted wait) is nondeterministic; encoder and staging buffer by contract (C01, C08)'))

prop('C05', 'Changing the log file or shutting down loses no message',
     'setLogFile() makes everything logged before it durable in the old file before it stops the background thread, which ends only when nothing encoded is left unwritten; the new file is appended to and starts with its own checkpoint and complete dictionary; if the new file cannot be opened the call throws and logging continues to the old file unchanged. Shutdown drains staged messages, waits for the last write and only then releases file and buffers.',
     ['histories', 'fault_sequences'],
     'all call sequences of log / setLogFile / exit, all failing opens',
     'Tests change the file a few times in a quiescent process.',
     ['runtime/RuntimeLogger.cc'],
     [('setLogFile_internal', 'runtime/RuntimeLogger.cc'), ('~RuntimeLogger', 'runtime/RuntimeLogger.cc')],
     check=dict(technique='abstract interpretation of setLogFile, constructor, destructor and the background thread: typestate of thread, file and buffers',
                level='proof', note='all paths including throwing ones; sync() by contract (C03); std::thread and files by their documented behaviour'))

prop('C06', 'A message is encoded only after its dictionary entry, under a unique id',
     'Every logging site gets one identifier, its position in the list of sites, and the dictionary entry at that position is encoded into the current file before the first message carrying the identifier; the entries of a file are consecutive from 0, each exactly once; newly registered sites are encoded in every pass and their messages are not held back afterwards.',
     ['schedules', 'histories'],
     'all interleavings of site registration, logging, encoding, output-buffer-full and file changes',
     'Tests register a few sites sequentially.',
     ['runtime/RuntimeLogger.h', 'runtime/RuntimeLogger.cc', 'runtime/Log.cc'],
     [('registerInvocationSite_internal', 'runtime/RuntimeLogger.h'), ('encodeNewDictionaryEntries', 'runtime/Log.cc')],
     check=dict(technique='abstract interpretation of the background thread and of site registration with a symbolic number of sites',
                level='proof', note='C++17 front end; the preprocessor front end writes its whole dictionary with the checkpoint (C10); encodeNewDictionaryEntries and encodeLogMsgs by contract (C08, C10)'))

prop('C07', 'A message is recorded exactly when its level passes the current threshold',
     'A logging statement records a message if and only if its severity is at least as severe as the current level at the '
     'time of the call, a suppressed statement has no effect at all (it evaluates none of its arguments), and setLogLevel clamps '
     'every value to the valid range; nothing else changes the level. (C++17 front end.)',
     ['inputs', 'programs'],
     'all level values, all statements',
     'Tests cover a few level pairs.',
     ['runtime/RuntimeLogger.cc', 'runtime/NanoLogCpp17.h'],
     [('setLogLevel', 'runtime/RuntimeLogger.cc'), ('log()', 'runtime/NanoLogCpp17.h')],
     check=dict(technique='abstract interpretation of witness logging statements under a symbolic level',
                level='proof', note='about 200 witness statements, symbolic level and arguments; setLogLevel on all 2^32 values; writers of the level enumerated over the call graph'))

prop('C08', 'The encoder never writes past its buffer and never splits a record',
     'For every output buffer smaller than 1 GiB and every sequence of staged messages, dictionary entries and checkpoints, '
     'the encoder writes only inside its buffer and only behind what it has written before, compresses arguments only when '
     'their worst case fits, encodes a record completely or leaves it unconsumed, reports as consumed exactly the staged '
     'bytes of the messages it encoded, and the message count, extent length and byte count it reports equal what was written.',
     ['inputs', 'histories', 'configurations'],
     'all buffer sizes, fill levels, message sizes and contents',
     'Tests use a few capacities.',
     ['runtime/Log.cc', 'runtime/Log.h'],
     [('Encoder::encodeLogMsgs', 'runtime/Log.cc'), ('Encoder::encodeNewDictionaryEntries', 'runtime/Log.cc')],
     check=dict(technique='abstract interpretation of the encoder over convex polyhedra (loops closed by widening)',
                level='proof',
                note='symbolic buffer, fill level, staged bytes and dictionary; pack() replaced by its contract (decided by C09); '
                     'compression functions assumed to write at most twice the staged argument bytes (C12); both front ends'))

prop('C09', 'Packing then unpacking restores every value and its exact length',
     'For every supported integer and floating-point type and every value, unpack(pack(v)) == v, using between one byte and '
     'the size of the type, with the descriptor nibble fitting in four bits; nibble pairs read back in the order written.',
     ['inputs'], 'all values of all supported types',
     'Tests try a few dozen boundary values out of 2^64.',
     ['runtime/Packer.h'], [('pack/unpack/TwoNibbles/Nibbler', 'runtime/Packer.h')],
     check=dict(technique='abstract interpretation of pack/unpack/Nibbler on symbolic values (linear arithmetic over bit patterns)',
                level='proof',
                note='each type\'s full value range is covered by the paths of a witness program; streams of mixed values up to '
                     'six arguments; floats are opaque bit patterns'))

prop('C10', 'Headers, extents, dictionaries and checkpoints decode to what was encoded',
     'For every log id, timestamp and preceding timestamp, the compressed entry header decodes to the same id and timestamp '
     'and consumes exactly the bytes written; buffer extents (buffer id, new-pass flag, the messages inside), dictionary '
     'fragments (severity, line, file name, format string, in order) and checkpoints (clock values, dictionary size) decode '
     'to the encoded fields; a record that does not fit leaves nothing behind; entry type tags are told apart. File names '
     'and format strings are assumed shorter than 64 KiB.',
     ['inputs'], 'all ids, timestamps, buffer ids, clock values, strings shorter than 64 KiB, buffer capacities',
     'Tests try a few dozen values.',
     ['runtime/Log.h', 'runtime/Log.cc'], [('compressLogHeader/decompressLogHeader', 'runtime/Log.h'),
                                            ('encodeBufferExtentStart/readBufferExtent', 'runtime/Log.cc'),
                                            ('encodeNewDictionaryEntries/readDictionaryFragment', 'runtime/Log.cc'),
                                            ('insertCheckpoint/readCheckpoint', 'runtime/Log.cc')],
     check=dict(technique='abstract interpretation of encoder and decoder back to back on symbolic fields',
                level='proof',
                note='every field is symbolic over its full range; sequences of up to three messages per extent, two extents and two '
                     'dictionary entries (state carried between records is position and last timestamp); FILE* is a byte sequence model'))

prop('C11', 'Every stage agrees on what a format string means',
     'For every format string the compile-time parser accepts, the number, kinds and order of arguments (including dynamic '
     'width and precision) it derives are the same ones the decoder derives when it rebuilds the message, and literal text is kept byte for byte.',
     ['inputs', 'programs'], 'all format strings', 'Tests try a few dozen strings.',
     ['runtime/NanoLogCpp17.h', 'runtime/Log.cc', 'preprocessor/FunctionGenerator.py'],
     [('analyzeFormatString', 'runtime/NanoLogCpp17.h'), ('createMicroCode', 'runtime/Log.cc')])

prop('C12', 'C++17 front end: size, store and compress of arguments agree',
     'For every combination of argument types and values, the bytes reserved for a message equal the bytes stored, the '
     'compressor reads exactly the bytes stored and writes at most twice as many, and the compressed arguments read back in order '
     'with their types and values, strings cut at their static or dynamic precision.',
     ['inputs', 'programs'], 'all argument type lists and values', 'Tests instantiate a few argument lists.',
     ['runtime/NanoLogCpp17.h', 'runtime/Log.cc'], [('getArgSize/store_argument/compress', 'runtime/NanoLogCpp17.h')],
     check=dict(technique='abstract interpretation of log() and compress() back to back on symbolic arguments',
                level='proof',
                note='about 200 witness statements cover every scalar type alone and all pairs of representative kinds, selected longer '
                     'lists; values, string contents and lengths (below 1 MiB) symbolic; pack/unpack by contract (C09)'))

prop('C13', 'Preprocessor front end: generated record, compress and decompress code agree',
     'For every logging statement the preprocessor accepts, the generated recording, compression and decompression '
     'functions agree on the layout byte for byte, so the message is rebuilt with the same arguments, and ids, tables and '
     'dictionary refer to the same statement.',
     ['inputs', 'programs'], 'all accepted logging statements and argument values', 'Tests compare a few generated files textually.',
     ['preprocessor/FunctionGenerator.py', 'preprocessor/parser.py'], [('generateLogFunctions', 'preprocessor/FunctionGenerator.py')])

prop('C14', 'A thread\'s staging buffer lives until its owner exited and it is drained',
     'A staging buffer is freed only by the background thread while it holds the list lock, only after its owning thread gave it up and was afterwards seen to have left it empty; it leaves the list in the same critical section and is not used afterwards. Each thread adds the buffer it created to the list exactly once and gives it up exactly once; ids are unique, and deleting a buffer does not make a pass skip another.',
     ['schedules', 'histories'], 'all interleavings of thread creation, exit and the background scan', 'Tests create a few threads.',
     ['runtime/RuntimeLogger.h', 'runtime/RuntimeLogger.cc'], [('checkCanDelete', 'runtime/RuntimeLogger.h'),
                                                                ('ensureStagingBufferAllocated', 'runtime/RuntimeLogger.h')],
     check=dict(technique='abstract interpretation of the background thread and of buffer allocation/release: ownership and lifetime typestate of one arbitrary buffer',
                level='proof', note='list of arbitrary length; thread-local destructors assumed to run in the owning thread; fewer than 2^32 - 1 buffers created'))

prop('C15', 'Shared state is accessed under its lock and locks nest in one order',
     'The list of staging buffers, the next buffer id and the list of logging sites are read and written, and the sync hand-shake state is changed, only while holding the mutex that protects them; no mutex is locked twice, left locked at return or held while sleeping or waiting for another thread; mutexes are nested in one order.',
     ['schedules'], 'all interleavings of all public calls and the background thread', 'Race windows are a few instructions wide.',
     RT, [('bufferMutex/registrationMutex/condMutex', 'runtime/RuntimeLogger.h')],
     check=dict(technique='lock-set and lock-order analysis by abstract interpretation of every entry point',
                level='proof', note='all paths of the background thread and eleven entry points; RAII locks followed through exceptions; the sync state may be read without its lock as a hint, statistics counters are exempt'))

prop('C16', 'Decoding a damaged log file never touches memory out of bounds',
     'For every byte sequence presented as a log file, decoding terminates with output or an error and never reads or writes '
     'outside the objects it owns.',
     ['inputs'], 'all byte sequences', 'Tests use well-formed files and a few truncations.',
     ['runtime/Log.cc', 'runtime/Log.h'], [('BufferFragment', 'runtime/Log.cc'), ('Decoder', 'runtime/Log.cc')])

prop('C17', 'All decoding modes treat every kind of log entry consistently',
     'Sorted, unsorted and iterator decoding handle every entry kind, report errors instead of continuing past them, and '
     'start from a fresh dictionary at every new execution in the file.',
     ['inputs', 'histories'], 'all sequences of entries', 'Tests decode a few files.',
     ['runtime/Log.cc'], [('decompressTo/getNextLogStatement', 'runtime/Log.cc')])

prop('C18', 'Decoded arguments keep their type, value and position',
     'A decoded message exposes every argument in call order with the type and value it was logged with, for any number of '
     'arguments, and a reused message object shows only the current message.',
     ['inputs', 'histories'], 'all argument counts and reuse histories', 'Tests use a few argument counts.',
     ['runtime/Log.cc', 'runtime/Log.h'], [('LogMessage', 'runtime/Log.h')])

prop('C19', 'Trace buffers stop recording while they are being printed',
     'While a time-trace dump is running no recorded event is overwritten, recording resumes only when the last '
     'concurrent dump has finished, and events print in time order with every recorded event in range exactly once.',
     ['schedules', 'histories'], 'all interleavings of record and dump calls', 'No test covers the trace buffers.',
     ['runtime/TimeTrace.h', 'runtime/TimeTrace.cc'], [('Buffer::record/printInternal', 'runtime/TimeTrace.cc')])

prop('C20', 'Total chronological order of decoded output',
     'Decoded messages of different threads appear in non-decreasing timestamp order.',
     ['schedules', 'histories'], 'all interleavings', 'Depends on run-time clocks.',
     ['runtime/Log.cc'], [('decompressTo', 'runtime/Log.cc')],
     na='order across threads depends on run-time timestamp values and on how far the background thread lags; no static argument bounds them')

prop('C21', 'Logging latency stays bounded',
     'A logging call completes within a bounded time.',
     ['schedules'], 'all schedules', 'Timing.',
     ['runtime/RuntimeLogger.h'], [('reserveProducerSpace', 'runtime/RuntimeLogger.h')],
     na='latency is a run-time quantity (scheduler, disk, cache); the code blocks by design when the buffer is full')
