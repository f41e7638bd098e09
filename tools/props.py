"""The properties: statement, anchors, how they are decided."""
PATHS = 'interprocedural, path-sensitive abstract interpretation of LLVM IR (property simulation)'
TRUST = 'Sound for the listed rules up to the documented abstractions of the analyser (no integer overflow in addresses, opaque ' \
        'library calls do not touch objects they were not given); trusts clang 18, opt -passes=sroa and the analyser in /verif/vf.'

PROPS = [
    dict(id='C10', title='Fixed-size text buffers are never overrun and their text is always terminated',
         statement='No input, however long, makes the library write or read behind the end of one of its fixed-size arrays: the buffers of log '
                   'messages and thread streams, log formats, formatted numbers, times and descriptions, and tables indexed by a computed value. '
                   'Text which does not fit is truncated, and the text in such a buffer is terminated whenever it is passed on or kept; the '
                   'write position of a thread stream always stays within its buffer.',
         over=['inputs', 'histories'],
         quant='every length of every text and every sequence of writes to a stream',
         why='The tests log nothing; an overrun needs texts which are longer than any sample, and an unterminated one shows only if the next byte '
             'is not zero by chance.',
         files=['icl_core_logging/ThreadStream.cpp', 'icl_core_logging/LogOutputStream.cpp', 'icl_core/TimeStamp.cpp', 'icl_core/os_string.cpp',
                'icl_core_config/AttributeTree.cpp', 'icl_core_thread/Thread.cpp'],
         mech=[('ThreadStream buffer', 'icl_core_logging/ThreadStream.cpp'), ('log messages and formats', 'icl_core_logging/LogOutputStream.cpp'),
               ('time formatting', 'icl_core/TimeStamp.cpp')],
         technique=PATHS + ': linear inequalities on sizes and indices, inferred class invariants, termination typestate', note=TRUST),
    dict(id='L01', title='A log statement yields exactly one correct message if and only if it is enabled',
         statement='Every log statement macro (stream name, stream object, member and local variants, with text or format, with or without class and '
                   'object name) evaluates its arguments and passes exactly one message to its thread stream if and only if the log stream is active '
                   'and its level is not above that of the statement; debug and trace statements vanish from release builds. The message carries the '
                   'level, source file, line, function, class name and object name of its own statement and nothing of an earlier one. Log levels and '
                   'their names are converted one to one in both directions, and an unknown name leaves the level unchanged.',
         over=['programs', 'configurations'],
         quant='every log macro, for every level of the stream, in debug and release configuration',
         why='There are more than two hundred macros, most of which no test expands; a slip in one only shows in the text of a rarely enabled message.',
         files=['icl_core_logging/LoggingMacros_SLOGGING.h', 'icl_core_logging/LoggingMacros_SLOGGING_FMT.h', 'icl_core_logging/LoggingMacros_LOGGING.h',
                'icl_core_logging/LoggingMacros_LLOGGING.h', 'icl_core_logging/LoggingMacros_MLOGGING.h', 'icl_core_logging/LogLevel.cpp'],
         mech=[('the macros', 'icl_core_logging/LoggingMacros_SLOGGING.h'), ('logLevelDescription, stringToLogLevel', 'icl_core_logging/LogLevel.cpp')],
         technique=PATHS + ' of every macro, expanded once in a generated witness', note=TRUST),
    dict(id='L02', title='A log message reaches every connected output exactly once, unchanged',
         statement='A flushed thread stream delivers its message exactly once to every output connected to its log stream whose level admits it, with text, '
                   'level, stream name and source position unchanged and under its own lock; an output with a worker thread queues it, and the worker '
                   'writes every queued message exactly once in order, is woken for each, and empties the queue before it ends. A thread stream is handed to '
                   'one thread at a time and reset before it is given back. Shutting down removes every output from every stream, ends its worker '
                   'and destroys it before any stream is destroyed.',
         over=['schedules', 'histories'],
         quant='every number of connected outputs and queued messages, every point at which the worker or the shutdown can intervene',
         why='The logging tests only compile statements; lost, doubled or truncated messages need several outputs, queues and a shutdown while '
             'messages are pending.',
         files=['icl_core_logging/LogStream.cpp', 'icl_core_logging/ThreadStream.cpp', 'icl_core_logging/LogOutputStream.cpp',
                'icl_core_logging/LoggingManager.cpp'],
         mech=[('ThreadStream::flush', 'icl_core_logging/ThreadStream.cpp'), ('LogOutputStream::push, WorkerThread', 'icl_core_logging/LogOutputStream.cpp'),
               ('LoggingManager::shutdown', 'icl_core_logging/LoggingManager.cpp')],
         technique=PATHS + ': typestate of messages, queue, iterators and outputs', note=TRUST),
    dict(id='T01', title='Lock, wait and release operations do, and report, exactly what happened',
         statement='Every blocking, timed or non-blocking acquisition of a mutex, read/write lock, semaphore or spin lock attempts the '
                   'operating system (or atomic) primitive of its own kind and reports success exactly when that attempt succeeded; a '
                   'timed variant passes on the given deadline, or the current time plus the given time span. Every release operates '
                   'exactly once on the same object as the acquisitions. A new semaphore starts with the requested count, a new '
                   'mutex is recursive, and a spin lock is taken by exactly one of several competing threads.',
         over=['inputs', 'schedules', 'fault_sequences'],
         quant='every result of the operating system primitive, every timeout value, every state of the lock',
         why='Tests run a few uncontended or briefly contended sequences; results under contention, time-out, error returns and clock '
             'positions are not reached, and a wrong result only shows as a rare race in user code.',
         files=['icl_core_thread/Mutex.cpp', 'icl_core_thread/RWLock.cpp', 'icl_core_thread/Sem.cpp', 'icl_core_thread/SpinLock.h',
                'icl_core_thread/MutexImplPosix.cpp', 'icl_core_thread/RWLockImplPosix.cpp', 'icl_core_thread/SemaphoreImplPosix.cpp',
                'icl_core_logging/Semaphore.cpp', 'icl_core_logging/SemaphoreImplPosix.cpp'],
         mech=[('POSIX implementations', 'icl_core_thread/*ImplPosix.cpp'), ('atomic exchange', 'icl_core_thread/SpinLock.h')],
         technique=PATHS + ': typestate of each lock operation against its primitive', note=TRUST),
    dict(id='T02', title='Scoped lock guards hold the lock exactly while they say they do',
         statement='A scoped guard acquires the lock it was given, in the requested mode, reports holding it exactly when the acquisition '
                   'succeeded, and on destruction releases that lock once if and only if it holds it. A guard which is not allowed to '
                   'fail is never constructed without holding the lock.',
         over=['inputs', 'schedules', 'fault_sequences'],
         quant='every outcome of the acquisition attempts, every combination of constructor arguments',
         why='The failing acquisition of a guard is not tested at all; a guard that releases a lock it never got corrupts the lock of '
             'another thread.',
         files=['icl_core_thread/ScopedMutexLock.cpp', 'icl_core_thread/ScopedRWLock.cpp', 'icl_core_thread/ScopedSpinLock.h',
                'icl_core_logging/ScopedSemaphore.cpp'],
         mech=[('constructor/destructor pairs', 'icl_core_thread/Scoped*.cpp, icl_core_logging/ScopedSemaphore.cpp')],
         technique=PATHS + ': constructor, query and destructor explored as one history', note=TRUST),
    dict(id='T03', title='Every acquired lock is released on every way out, and only then',
         statement='No function of the library returns, or is left otherwise, while it still holds a mutex, semaphore, read/write or spin lock '
                   'which it acquired, and no function releases one of these locks without holding it: in particular not after an acquisition '
                   'that failed or timed out.',
         over=['inputs', 'schedules', 'fault_sequences'],
         quant='every path through every function that uses a lock, every outcome of every acquisition',
         why='A lock that is left locked on a rarely taken path blocks the next user forever; the tests neither take these paths nor let '
             'acquisitions fail.',
         files=['icl_core_thread/ActiveObject.cpp', 'icl_core_thread/Thread.cpp', 'icl_core_dispatch/PeriodicDispatchThread.cpp',
                'icl_core_logging/LogStream.cpp', 'icl_core_logging/LogOutputStream.cpp', 'icl_core_logging/ThreadStream.cpp'],
         mech=[('lock/unlock, wait/post and guard objects', 'all users of icl_core_thread and icl_core_logging locks')],
         technique=PATHS + ': lock balance of every function that uses a lock', note=TRUST),
    dict(id='T04', title='The library cannot deadlock itself: ordered locks, no waiting under a lock',
         statement='The order in which the locks of the library are acquired, through all direct and virtual calls, has no cycle, and a lock '
                   'which is not recursive is never acquired again by its holder. No function waits for another thread, for a message or for '
                   'time to pass while it holds a lock, except for the lock which a thread holds for as long as it runs.',
         over=['schedules', 'programs'],
         quant='every chain of calls made with a lock held, every set of threads that use these functions at the same time',
         why='A deadlock needs two threads at two particular places at the same time; no test runs logging, configuration and threads '
             'against each other.',
         files=['icl_core_thread/ActiveObject.cpp', 'icl_core_thread/Thread.cpp', 'icl_core_dispatch/PeriodicDispatchThread.cpp',
                'icl_core_logging/LogStream.cpp', 'icl_core_logging/LogOutputStream.cpp', 'icl_core_logging/ThreadStream.cpp'],
         mech=[('locks held at calls', 'all users of icl_core_thread and icl_core_logging locks')],
         technique='lock-order and blocking analysis: locks held at each call (path-sensitive) combined over the call graph with class hierarchy analysis',
         note='Locks are identified by the class member which holds them; two objects of a class count as one lock. Virtual calls go to every override '
              'in the library, calls through other function pointers are not followed.'),
    dict(id='T05', title='Shared containers are only touched with their lock held',
         statement='The queues, lists and maps which belong to an object with a lock of its own (operation queue, dispatch queue, message queue, '
                   'log formats, output stream list, thread stream map) are only read or changed while that one lock is held, by every function '
                   'except the constructors and destructors of the object.',
         over=['schedules', 'programs'],
         quant='every access in every function, including friends and helper functions, for every thread that may execute it',
         why='A race on a container needs two threads within a few instructions; it corrupts memory long before a test would notice.',
         files=['icl_core_thread/ActiveObject.cpp', 'icl_core_dispatch/PeriodicDispatchThread.cpp', 'icl_core_logging/LogStream.cpp',
                'icl_core_logging/LogOutputStream.cpp', 'icl_core_logging/ThreadStream.cpp'],
         mech=[('container members of classes with a lock member', 'ActiveObject, PeriodicDispatchThread, LogStream, LogOutputStream, WorkerThread')],
         technique='lockset analysis: ' + PATHS, note=TRUST),
    dict(id='T06', title='Threads are started once, waited for, joined, and never leak or dangle',
         statement='start() reports success exactly when the new thread exists and otherwise leaves the object startable; a started thread '
                   'executes run() exactly once, and stop(), wait(), join() and the running/finished queries keep their meaning for every '
                   'order of these events. Every created operating system thread is joined or detached exactly once, and wait() returns '
                   'only after run() has returned. No destructor of a thread object releases the object while its thread may still use it.',
         over=['inputs', 'schedules', 'fault_sequences', 'histories'],
         quant='every order of start/stop/join/wait/destroy calls, every point at which the other thread runs, every failure of thread creation',
         why='The order of two threads cannot be enumerated by tests; losing a wake-up or joining a finished thread only shows as a rare '
             'hang or as a slow leak.',
         files=['icl_core_thread/Thread.cpp', 'icl_core_thread/Thread.h', 'icl_core_thread/ThreadImplPosix.cpp', 'icl_core_thread/PeriodicThread.cpp',
                'icl_core_logging/Thread.cpp', 'icl_core_logging/ThreadImplPosix.cpp', 'icl_core_logging/WorkerThread.cpp'],
         mech=[('flags and mutex', 'icl_core_thread/Thread.cpp, icl_core_logging/Thread.cpp'), ('POSIX implementations', '*/ThreadImplPosix.cpp')],
         technique=PATHS + ': typestate of the thread object over all event orders', note=TRUST),
    dict(id='T07', title='Active objects execute or delete every queued operation exactly once, in order',
         statement='Every operation passed to ActiveObject::queue() is either executed exactly once by the thread of the active object, without '
                   'the queue locked, and then deleted, or deleted without being executed when the thread is stopping or stopped. '
                   'Operations are executed in the order in which they were queued, the thread is woken up for each of them and by stop(), and '
                   'the queue is never accessed by two threads at the same time nor destroyed while the thread runs.',
         over=['inputs', 'schedules', 'histories'],
         quant='every interleaving of queue(), stop() and destruction with the worker thread',
         why='There is no test of active objects; a lost, leaked or doubly deleted operation depends on the position of the worker when the '
             'queue is accessed.',
         files=['icl_core_thread/ActiveObject.cpp', 'icl_core_thread/ActiveObject.h', 'icl_core_thread/ActiveOperation.h'],
         mech=[('operation queue, mutex and semaphore', 'icl_core_thread/ActiveObject.cpp')],
         technique=PATHS + ': ownership of each operation and the queue mutex', note=TRUST),
    dict(id='T08', title='Periodic threads run on one monotonic timer with exactly the requested period',
         statement='A periodic thread waits on a monotonic timer which expires first after one period and then once per period, where the period '
                   'is the one given to the constructor or to the last setPeriod(); period() returns it and setPeriod() reports truthfully whether the '
                   'running timer was changed. Every timer that is created is closed exactly once and no other descriptor is ever used as a timer.',
         over=['inputs', 'histories', 'fault_sequences'],
         quant='every period, every order of makePeriodic/setPeriod/waitPeriod, every failure of the timer calls',
         why='The tests start one thread with one period; restarting, changing the period before start, and failures of the timer are not reached.',
         files=['icl_core_thread/PeriodicThread.cpp', 'icl_core_thread/PeriodicThread.h', 'icl_core_thread/PeriodicThreadImplTimerfd.cpp',
                'icl_core_thread/PeriodicThreadImplTimerfd.h'],
         mech=[('timerfd', 'icl_core_thread/PeriodicThreadImplTimerfd.cpp')],
         technique=PATHS + ': descriptor typestate and value flow over call histories', note=TRUST),
    dict(id='C01', title='Time arithmetic, conversions and printing are exact and results are normalised',
         statement='Every constructor, sum, difference, scaling by a factor, conversion from or to seconds, milliseconds, microseconds, nanoseconds or '
                   'timespec and every accessor of TimeSpan and TimeStamp yields exactly the time it stands for (scaling up to rounding), and what '
                   'is printed for a time span adds up to it. Every resulting time is in normal form: less than a second of nanoseconds, of the '
                   'same sign as the seconds.',
         over=['inputs'],
         quant='all seconds and nanoseconds (64 bit overflow of the seconds excepted), all factors',
         why='The tests use a handful of times; carries, borrows, mixed signs, narrowing conversions and magnitudes beyond 32 bits are not covered.',
         files=['icl_core/TimeBase.cpp', 'icl_core/TimeBase.h', 'icl_core/TimeSpan.cpp', 'icl_core/TimeSpan.h', 'icl_core/TimeStamp.cpp',
                'icl_core/TimeStamp.h', 'icl_core_logging/Logging.cpp'],
         mech=[('TimeBase::normalizeTime', 'icl_core/TimeBase.cpp'), ('operator<< for time spans', 'icl_core/TimeSpan.cpp, icl_core_logging/Logging.cpp')],
         technique=PATHS + ': value numbering to linear forms over seconds and nanoseconds with exact integer division; loop invariant and intervals '
                           'for the normal form', note=TRUST),
    dict(id='C02', title='Times are totally ordered by seconds, then nanoseconds',
         statement='For any two time spans or time stamps in normal form each of ==, !=, <, <=, > and >= has the result of comparing the seconds and, only if '
                   'they are equal, the nanoseconds, so the six operators are consistent with one another.',
         over=['inputs'],
         quant='all pairs of times',
         why='An operator which is wrong only for one combination of seconds and nanoseconds passes tests with round numbers, and sorted containers '
             'and time-outs silently break.',
         files=['icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.h'],
         mech=[('comparison operators', 'icl_core/TimeBase.cpp')],
         technique=PATHS + ': exhaustive case split over the order of the components', note=TRUST),
    dict(id='C04', title='Constructors leave no member of an object with an indeterminate value',
         statement='Every constructor of every class of the library gives every scalar, enumeration and pointer member of the new object a '
                   'value on every path, directly or by means of the functions it calls, so that no later query, comparison or destruction '
                   'of the object reads an indeterminate value.',
         over=['inputs', 'histories'],
         quant='every constructor of every class, every path through it',
         why='An indeterminate member usually happens to be zero in a test; whether it is read depends on the order of later calls.',
         files=['icl_core', 'icl_core_thread', 'icl_core_logging', 'icl_core_config', 'icl_core_plugin', 'icl_core_performance_monitor',
                'icl_core_dispatch', 'icl_core_crypt'],
         mech=[('constructors', 'all classes')],
         technique=PATHS + ': definite assignment of the members', note=TRUST),
    dict(id='C06', title='Superseded function names behave exactly like their replacements',
         statement='Every public function which is kept under its old name for compatibility (deprecated coding style) calls its replacement exactly '
                   'once, on the same object, with the same arguments in the same order, and returns its result; it has no other effect.',
         over=['inputs'],
         quant='every such function of every class, all arguments',
         why='No test calls the old names; there are about three hundred of them and a wrong one compiles as well as a right one.',
         files=['icl_core', 'icl_core_thread', 'icl_core_logging', 'icl_core_config', 'icl_core_performance_monitor'],
         mech=[('_IC_BUILDER_DEPRECATED_STYLE_ sections', 'all headers and sources')],
         technique=PATHS + ': summary of the wrapper against a call of its counterpart', note=TRUST),
    dict(id='G01', title='Typed configuration access delivers the converted value, or nothing',
         statement='get(), getDefault(), paramOpt(), paramOptDefault(), paramNonOpt() and the objects of a batch succeed exactly when their key exists and its '
                   'text converts to the requested type (for an enumeration: equals one of the descriptions), and then deliver exactly that value; '
                   'otherwise the target keeps its value, or gets the default. A batch reads every object exactly once below its prefix, succeeds '
                   'exactly if there are objects and none failed, and deletes each once if cleanup is requested.',
         over=['inputs', 'configurations'],
         quant='every configured text, every key, every number of descriptions and of objects of a batch',
         why='The single config test reads well-formed values; texts which do not convert, missing keys, temporaries as defaults and partly failing '
             'batches are not tested, and a wrong value is silently used.',
         files=['icl_core_config/Config.h', 'icl_core_config/Util.h', 'icl_core_config/ConfigValue.h', 'icl_core_config/ConfigValueDefault.h',
                'icl_core_config/ConfigEnum.h', 'icl_core_config/ConfigEnumDefault.h', 'icl_core_config/MemberValue.h', 'icl_core_config/MemberEnum.h',
                'icl_core/EnumHelper.cpp'],
         mech=[('config::get', 'icl_core_config/Config.h'), ('hexical_cast, strict_bool_cast', 'icl_core_config/Util.h'),
               ('string2Enum', 'icl_core/EnumHelper.cpp')],
         technique=PATHS + ': abstract strings, each result compared with the specification', note=TRUST),
    dict(id='G02', title='Configuration is complete, ordered by precedence, and changes are announced',
         statement='The directory returns exactly what was last stored for a key, and queries visit every matching key once. Initialisation applies the '
                   'configuration file (with all its elements, texts and includes), then command line parameters, with a default only for keys still '
                   'missing, then configuration options, and reports success and becomes initialised only if the file was read. Every stored key is '
                   'announced once, after it was stored, to the observers of that key and of all keys; a new observer is told the existing keys, and '
                   'an unregistered or destroyed one nothing.',
         over=['inputs', 'configurations', 'histories'],
         quant='every set of keys, parameters and options, every configuration document, every sequence of registrations and changes',
         why='The config test stores three keys and reads them; precedence, includes, observers and failing files are not tested at all.',
         files=['icl_core/KeyValueDirectory.h', 'icl_core/KeyValueDirectory.hpp', 'icl_core_config/ConfigManager.cpp', 'icl_core_config/ConfigManager.h',
                'icl_core_config/ConfigObserver.cpp', 'icl_core_config/Config.cpp'],
         mech=[('KeyValueDirectory', 'icl_core/KeyValueDirectory.hpp'), ('ConfigManager', 'icl_core_config/ConfigManager.cpp'),
               ('ConfigObserver', 'icl_core_config/ConfigObserver.cpp')],
         technique=PATHS + ': symbolic maps, iterator typestate, monitors of stores and announcements', note=TRUST),
    dict(id='G03', title='Every command line argument is used exactly once, as what it is',
         statement='Each argument becomes exactly one thing, in this order: extra parameter (behind the delimiter), long or short option with its value, prefix '
                   'option with suffix and value, delimiter, required then optional positional parameter, or other parameter. Initialisation fails exactly '
                   'for an empty command line, a missing value, or (strict) an unknown option; missing required parameters or help end the program; it takes '
                   'effect once, and without cleanup leaves argc and argv alone. The accessors return what was given, or nothing.',
         over=['inputs', 'configurations'],
         quant='every command line of any length, every set of registered options, prefix options and positional parameters',
         why='No test parses a command line; which argument is swallowed or attributed to another option shows only in particular combinations.',
         files=['icl_core_config/GetoptParser.cpp', 'icl_core_config/GetoptParser.h', 'icl_core_config/GetoptParameter.cpp',
                'icl_core_config/GetoptPositionalParameter.cpp', 'icl_core_config/ConfigParameter.cpp', 'icl_core_config/ConfigPositionalParameter.cpp',
                'icl_core_config/Config.cpp'],
         mech=[('Getopt::initialize', 'icl_core_config/GetoptParser.cpp'), ('GetoptParameter', 'icl_core_config/GetoptParameter.cpp'),
               ('config::initialize', 'icl_core_config/Config.cpp')],
         technique=PATHS + ': loop over symbolic arguments, each event compared with the grammar of the command line', note=TRUST),
    dict(id='H01', title='Every public header can be included on its own and every template instantiated',
         statement='Every installed header of the library compiles when it is the only header a program includes, with the build options of the '
                   'library, and every public class template compiles when it is instantiated with all of its member functions.',
         over=['programs'],
         quant='every public header, every member function of every public class template',
         why='Members of templates which no test uses are never compiled, and headers are only ever included in the order the tests use.',
         files=['icl_core', 'icl_core_thread', 'icl_core_logging', 'icl_core_config', 'icl_core_plugin', 'icl_core_performance_monitor',
                'icl_core_dispatch', 'icl_core_crypt'],
         mech=[('headers', 'all *.h, *.hpp')],
         technique='type checking (clang) of one generated translation unit per header and one explicit instantiation per template',
         note='Trusts the clang front end; a header for another operating system is left out.'),
    dict(id='R01', title='Files, sockets, databases, locks and owned objects are released exactly once',
         statement='Every operating system resource which the library acquires (log files, sockets, address lists, word expansions, SQLite databases, '
                   'statements and error messages, timers, mutexes, semaphores, read/write locks) and every object a class creates for itself is '
                   'held by exactly one owner from then on, is used only while it is open, and is released exactly once: on every path through a '
                   'function, also when a later step fails, and otherwise by the member functions and the destructor of its class, whatever the '
                   'order in which they were called.',
         over=['histories', 'fault_sequences'],
         quant='every sequence of calls of the public functions and every combination of failing acquisitions',
         why='A leak or a double release shows up only after a failure which no test provokes, or after the descriptors run out.',
         files=['icl_core_logging/FileLogOutput.cpp', 'icl_core_logging/UdpLogOutput.cpp', 'icl_core_logging/SQLiteLogDb.cpp', 'icl_core/os_fs.cpp',
                'icl_core_thread/PeriodicThreadImplTimerfd.cpp', 'icl_core_thread/MutexImplPosix.cpp', 'icl_core_thread/SemaphoreImplPosix.cpp',
                'icl_core_thread/RWLockImplPosix.cpp', 'icl_core_logging/LogOutputStream.cpp'],
         mech=[('log files', 'icl_core_logging/FileLogOutput.cpp'), ('sockets', 'icl_core_logging/UdpLogOutput.cpp'),
               ('databases', 'icl_core_logging/SQLiteLogDb.cpp'), ('locks', 'icl_core_thread/MutexImplPosix.cpp')],
         technique=PATHS + ': handle typestate, fixpoint over the abstract states a class can be in between two calls', note=TRUST),
    dict(id='L03', title='Every output writes exactly the fields of the message, in their places',
         statement='A message which an output accepts is written exactly once with its own fields: the text outputs render each field specifier of the '
                   'log format as the field it stands for, in the order of the format (nothing for an empty class, object or function name), and a new '
                   'format replaces the old one completely; the UDP output sends one datagram with the fields in the fixed order and every quotation '
                   'mark doubled; the SQLite output binds every field to the column of that name and leaves the statement ready for the next message; '
                   'the standard streams receive the line unchanged, in full, on the stream they are named after.',
         over=['inputs', 'histories'],
         quant='every log format, every message and every order of present and empty fields',
         why='No test exercises an output; a wrong field or a lost message is only seen in the log file of a running system.',
         files=['icl_core_logging/LogOutputStream.cpp', 'icl_core_logging/UdpLogOutput.cpp', 'icl_core_logging/SQLiteLogDb.cpp',
                'icl_core_logging/SQLiteLogOutput.cpp', 'icl_core_logging/StdLogOutput.cpp'],
         mech=[('log format', 'icl_core_logging/LogOutputStream.cpp'), ('datagrams', 'icl_core_logging/UdpLogOutput.cpp'),
               ('database rows', 'icl_core_logging/SQLiteLogDb.cpp')],
         technique=PATHS + ': symbolic message fields followed into the written text, datagram or statement', note=TRUST),
    dict(id='L05', title='Log files keep what was written: rotation, compression and deletion lose nothing',
         statement='The file output only opens its log file so that what is already in it is kept, writes every line to the open file, and rotates at most once per day '
                   'change: the old file is closed first, renamed or compressed under a name of its own date, and removed only after it has been compressed completely. '
                   'zipFile() reports success exactly if everything was written and closed. Old files are deleted only if the option asks for it, only in the '
                   'directory of the log file, only with its name as prefix and only if they are older than the limit.',
         over=['inputs', 'histories', 'fault_sequences'],
         quant='every combination of options, every day change and every failing file operation',
         why='Rotation happens at midnight and its failures on full disks; tests see neither, and lost logs cannot be recovered.',
         files=['icl_core_logging/FileLogOutput.cpp', 'icl_core/os_fs.cpp', 'icl_core_logging/SQLiteLogOutput.cpp', 'icl_core_logging/SQLiteLogDb.cpp'],
         mech=[('log files', 'icl_core_logging/FileLogOutput.cpp'), ('compression', 'icl_core/os_fs.cpp'), ('database files', 'icl_core_logging/SQLiteLogDb.cpp')],
         technique=PATHS + ': typestate of the log file over the abstract states of the output', note=TRUST),
    dict(id='P01', title='The plugin manager: every library and instance has one owner and one end',
         statement='A library which the plugin manager opens is closed again or registered under the identifier it reports, in which case it stays open until the '
                   'manager is destroyed and is closed once, after the instance the manager created from it has been deleted, exactly once; nothing is looked '
                   'up in or called from a library which could not be opened or lacks the function. plugin() returns the static plugin of that identifier, or '
                   'else the instance from the library, or NULL for an unknown identifier, createPluginInstance() returns a new instance which the caller owns, '
                   'and the lists contain every identifier and every existing instance, no NULL, before and after lazy loading. Static plugins are never '
                   'deleted, the one added last under an identifier counts, and destroying the manager ends.',
         over=['inputs', 'histories', 'fault_sequences'],
         quant='every identifier, every order of calls and every library which cannot be opened, lacks a function, has another type or creates no instance',
         why='No test loads a plugin; broken libraries, duplicate identifiers and the destruction of a manager are only met in a running system.',
         files=['icl_core_plugin/PluginManager.h', 'icl_core_plugin/PluginManagerBase.cpp'],
         mech=[('plugins and libraries', 'icl_core_plugin/PluginManager.h')],
         technique=PATHS + ': ownership typestate of the entries of one arbitrary identifier, inductive over all states the maps can be in', note=TRUST),
    dict(id='C14', title='Objects with resources cannot be copied by accident or half destroyed',
         statement='An object whose destructor deletes, closes, frees, destroys or unlocks what its members refer to is either not copyable and not assignable, '
                   'or its copies refer to nothing the original releases; so nothing is ever released by two objects. An object which the library deletes through a '
                   'pointer to a base class has a virtual destructor there, so the derived part is always destroyed.',
         over=['programs', 'inputs'],
         quant='every class with such a destructor, every class which is deleted through a base, every program which uses them',
         why='A copy which compiles is only wrong when both objects are destroyed, and a missing virtual destructor loses resources silently.',
         files=['icl_core/Noncopyable.h', 'icl_core_config/AttributeTree.h', 'icl_core_config/AttributeTree.cpp', 'icl_core_logging/SQLiteLogDb.h',
                'icl_core_logging/LoggingManager.h', 'icl_core_thread/ScopedMutexLock.h', 'icl_core_thread/ActiveOperation.h', 'icl_core_thread/Mutex.h'],
         mech=[('classes which cannot be copied', 'icl_core/Noncopyable.h'), ('deep copies', 'icl_core_config/AttributeTree.cpp'),
               ('operations', 'icl_core_thread/ActiveOperation.h')],
         technique=PATHS + ' over destructors and copy operations, with the class declarations of the debug information and compiler diagnostics', note=TRUST),
    dict(id='N01', title='SHA-2 digests are those of the standard, however the data is divided',
         statement='The digest of a message equals the SHA-224/256/384/512 value of FIPS 180-2, and does not depend on how the message is divided into calls or on its length modulo the block size.',
         over=['inputs', 'histories'], quant='every message and every division of it',
         why='The tests compute a few digests of short messages.',
         files=['icl_core_crypt/Sha2Impl.hpp', 'icl_core_crypt/Sha2.hpp'],
         mech=[('hash functions', 'icl_core_crypt/Sha2Impl.hpp')],
         na='Equality of 64 to 80 rounds of bit mixing with the standard is a property of values for all inputs, which no dataflow or type argument bounds; that the buffers are never overrun is decided by C10.'),
    dict(id='N02', title='The ring buffer delivers its elements in the order they were written',
         statement='Elements are read in the order they were written, each once; the sizes, the array ranges and the iterators describe exactly the elements present, across every wrap around the end.',
         over=['inputs', 'histories'], quant='every capacity, position and sequence of operations',
         why='The tests wrap a few small buffers.',
         files=['icl_core/RingBuffer.h', 'icl_core/RingBuffer.hpp'],
         mech=[('ring buffer', 'icl_core/RingBuffer.hpp')],
         na='The positions are computed modulo a size known only at run time; deciding them needs nonlinear integer reasoning about paths (a solver), not an abstract domain in reach. Initialisation (C04) and instantiation (H01) are decided.'),
    dict(id='N03', title='Attribute trees survive saving and loading',
         statement='A tree which is saved and loaded again has the same descriptions, attributes and order of subtrees, and loading any file ends.',
         over=['inputs'], quant='every tree and every file',
         why='The tests load a few well formed files.',
         files=['icl_core_config/AttributeTree.cpp'],
         mech=[('attribute trees', 'icl_core_config/AttributeTree.cpp')],
         na='A relation between texts and linked trees of unbounded depth; a shape analysis with string contents is out of reach here. That copies share nothing (C14) and that fixed buffers hold (C10) is decided.'),
    dict(id='N04', title='Times print and parse as ISO 8601, in every time zone and year',
         statement='formatIso8601() and the parsing functions are inverse to each other, and calendar fields agree with the number of seconds, for every representable time.',
         over=['inputs', 'configurations'], quant='every time and time zone',
         why='The tests print a few dates.',
         files=['icl_core/TimeStamp.cpp', 'icl_core/TimeSpan.cpp'],
         mech=[('time stamps', 'icl_core/TimeStamp.cpp')],
         na='Calendar values come from the C library and the time zone database at run time; the arithmetic which is done here is decided by C01.'),
    dict(id='N05', title='A URI is divided into scheme, specifier, anchor and queries as its grammar says',
         statement='Every text the grammar accepts is divided into its parts, each delivered in the field of that name, and every other text is refused.',
         over=['inputs'], quant='every text',
         why='The tests parse a few URIs.',
         files=['icl_core/SchemeParser.cpp'],
         mech=[('grammar', 'icl_core/SchemeParser.cpp')],
         na='The grammar is built at run time from expression templates with dynamically assigned rules; the accepted language is not visible in the types, and deciding it means running the parser.'),
    dict(id='N06', title='Statistics of the performance monitor are those of the recorded values',
         statement='Average, median, minimum and maximum of a series are those of the values recorded under its name, and durations are those which passed.',
         over=['inputs', 'histories'], quant='every series of measurements',
         why='No test looks at a statistic.',
         files=['icl_core_performance_monitor/PerformanceMonitor.cpp'],
         mech=[('statistics', 'icl_core_performance_monitor/PerformanceMonitor.cpp')],
         na='Floating point sums and sorting over series of unbounded length; real durations depend on the machine.'),
]
