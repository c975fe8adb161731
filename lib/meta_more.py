# --------------------------------------------------------------------------------------------- threads
prop("T01", "A mutex excludes other threads, is recursive, and loses no waiter",
     "At most one thread holds a mutex at any time, the holder may lock it again and keeps it until it has unlocked as often, and a thread waiting for it gets it once it stays free. Trying to lock returns at once and succeeds exactly when no other thread holds it; a timed lock succeeds if the mutex becomes free before its deadline and fails no earlier than the deadline.",
     ["schedules", "histories"], "every interleaving of any number of threads' calls, every deadline", "The tests run two threads on a wall clock and sample one schedule.",
     ["icl_core_thread/Mutex.cpp", "icl_core_thread/MutexImplPosix.cpp"], [("Mutex", "icl_core_thread/Mutex.cpp"), ("MutexImplPosix", "icl_core_thread/MutexImplPosix.cpp")], TS,
     "Random and priority-driven schedules of generated programs at synchronisation calls and memory accesses.")
prop("T02", "A read-write lock admits many readers or one writer",
     "A read-write lock is held either by any number of readers or by exactly one writer, and every release makes it available again to whoever waits. Try and timed variants succeed only if the lock could be granted, a timed request fails no earlier than its deadline, and none of them leaves anything held when it fails.",
     ["schedules", "histories"], "every interleaving of readers and writers, every deadline", "The tests use two threads with fixed sleeps.",
     ["icl_core_thread/RWLock.cpp", "icl_core_thread/RWLockImplPosix.cpp"], [("RWLockImplPosix", "icl_core_thread/RWLockImplPosix.cpp")], TS,
     "As T01.")
prop("T03", "A semaphore never loses or invents a permit",
     "The number of completed waits never exceeds the initial count plus the number of posts, and every post lets one waiting thread proceed. A try returns at once and takes a permit exactly when one is available, and a timed wait takes one if it becomes available before the deadline, fails no earlier than the deadline, and takes nothing when it fails.",
     ["schedules", "histories"], "every interleaving of posts and waits, every initial count and deadline", "The tests use two threads with fixed sleeps.",
     ["icl_core_thread/Sem.cpp", "icl_core_thread/SemaphoreImplPosix.cpp"], [("SemaphoreImplPosix", "icl_core_thread/SemaphoreImplPosix.cpp")], TS, "As T01.")
prop("T04", "Scoped locks and spin locks hold exactly what they acquired",
     "A scoped lock object holds its lock from the moment it reports success until it goes out of scope, releases exactly what it acquired, and holds nothing when acquisition failed. A spin lock excludes other threads between acquisition and release, a try on it succeeds exactly when it was free, and a waiting thread gets it after the release.",
     ["schedules", "histories"], "every interleaving and every nesting of scopes", "No test uses the spin lock or a scoped lock under contention.",
     ["icl_core_thread/ScopedMutexLock.cpp", "icl_core_thread/ScopedRWLock.cpp", "icl_core_thread/ScopedSpinLock.h", "icl_core_thread/SpinLock.h"], [("SpinLock", "icl_core_thread/SpinLock.h")], TS, "As T01.")
prop("T05", "A thread runs its body once per start and is joined completely",
     "Starting a thread runs its body exactly once, after which the thread counts as finished; stopping asks the body to end, and joining or waiting returns only after the body has ended and returns success. A thread can be started again after it has been joined. A stop request or a state query from any thread at any time, and a wait or join by the thread's owner, neither blocks forever nor loses the request.",
     ["schedules", "histories"], "every interleaving of start, stop, wait, join and state queries with the body", "The tests start one thread and sleep.",
     ["icl_core_thread/Thread.cpp", "icl_core_thread/ThreadImplPosix.cpp"], [("Thread::runThread, wait, join", "icl_core_thread/Thread.cpp")], TS, "As T01.")
prop("T06", "A periodic thread wakes once per period without drift",
     "Each wait for the next period of a periodic thread returns at the next multiple of its period after the start, never earlier, and waiting never drifts. Periods missed while the body was busy are skipped: the next wait returns at once for the last of them. A period changed by its owner counts from the moment of the change.",
     ["schedules", "histories"], "every execution time of the body and every period", "The tests run five periods on the wall clock and check a coarse bound.",
     ["icl_core_thread/PeriodicThread.cpp", "icl_core_thread/PeriodicThreadImplTimerfd.cpp"], [("PeriodicThread", "icl_core_thread/PeriodicThread.cpp")], TS, "Virtual clock.")
prop("T07", "An active object executes every queued operation once and in order",
     "Every operation handed to a running active object is executed exactly once, by its own thread, one at a time and in the order in which they were handed over. If it is stopped in the middle of an operation, the operations queued before are still executed; those queued when an idle one is stopped are executed or deleted. Those handed over while it is not running are deleted unexecuted, and nothing is executed after it has ended.",
     ["schedules", "histories"], "every interleaving of producers with the executing thread and with stopping", "The tests queue a few operations from one thread.",
     ["icl_core_thread/ActiveObject.cpp", "icl_core_thread/ActiveObject.h", "icl_core_thread/ActiveOperation.h"], [("ActiveObject", "icl_core_thread/ActiveObject.cpp")], TS, "As T01.")
prop("T08", "A singleton is created once and destroyed by its lifetime rules",
     "However many threads ask for a singleton first, exactly one instance is created and all of them get that same, fully constructed instance. At the end of the program instances are destroyed in the order their lifetime policy prescribes, and using a destroyed one fails as that policy says.",
     ["schedules", "histories"], "every interleaving of first uses, every policy combination and destruction order", "The tests use singletons from one thread.",
     ["icl_core/Singleton.h", "icl_core/Singleton.hpp", "icl_core/SingletonCreationPolicies.h", "icl_core/SingletonLifetimePolicies.h", "icl_core/SingletonThreadingModels.h", "icl_core_thread/SingletonThreadingModels.h"], [("Singleton::instance", "icl_core/Singleton.hpp")], TS, "As T01.")
prop("D01", "A dispatch thread executes its operations in order, once per period",
     "In every period a dispatch thread executes each of its operations - given to it before it was started, or by one of its operations - exactly once and in the order in which they were added; a pass once begun is completed. An operation is never executed before it was added or by another thread, and nothing is executed after the thread was stopped and joined.",
     ["schedules", "histories"], "every number and kind of operations, every period and stop time", "No test covers the dispatch library.",
     ["icl_core_dispatch/PeriodicDispatchThread.cpp", "icl_core_dispatch/CallbackOperation.cpp", "icl_core_dispatch/OperationQueue.h"], [("PeriodicDispatchThread::run", "icl_core_dispatch/PeriodicDispatchThread.cpp")], TS, "Virtual clock.")
# --------------------------------------------------------------------------------------------- configuration
prop("G01", "Command line parsing assigns every argument to its parameter",
     "Every command line argument is assigned to the parameter that declares it, by long form, short form, prefix form or position, with exactly its value, and everything after the end marker or unknown is reported as extra or as an error. A missing mandatory value or parameter makes parsing fail, and asking for help or leaving out a required parameter lists every declared option and positional parameter.",
     ["inputs"], "every declaration of parameters and every command line", "The tests parse a few literal command lines.",
     ["icl_core_config/GetoptParser.cpp", "icl_core_config/GetoptParameter.cpp", "icl_core_config/GetoptPositionalParameter.cpp"], [("GetoptParser::parseOptions", "icl_core_config/GetoptParser.cpp")], TV, "Generated declarations and command lines.")
prop("G02", "The configuration store is a map with queries and change notification",
     "Setting a configuration key makes exactly that key have exactly that text until it is set again, and reading a key never set fails without effect. A regular expression search yields each matching key once with its value and captured groups, and observers are told of every setting of exactly the keys they registered for, and at once of those that already exist.",
     ["histories"], "every history of sets, reads, searches and registrations", "The tests read a fixed configuration file.",
     ["icl_core_config/ConfigManager.cpp", "icl_core_config/ConfigIterator.cpp", "icl_core_config/Config.cpp"], [("ConfigManager", "icl_core_config/ConfigManager.cpp")], TV, "Generated histories.")
prop("G03", "Typed configuration reads return the denoted value or leave a default",
     "Reading a configuration value as text, number, boolean or enumeration yields the value its text denotes, and reports failure for an unknown key, an unknown enumeration name or a text that denotes no value without changing the target. A batch read fills every member that has a value, uses the defaults of those declared with one, and reports failure exactly when a mandatory one is missing.",
     ["inputs", "histories"], "every text, every type and every set of declared values", "The tests read a fixed configuration file.",
     ["icl_core_config/Config.h", "icl_core_config/ConfigValue.h", "icl_core_config/ConfigValueDefault.h", "icl_core_config/ConfigEnum.h", "icl_core_config/ConfigHelper.h"], [("get", "icl_core_config/Config.h")], TV, "Generated inputs.")
prop("G04", "Configuration sources combine in their documented precedence",
     "The configuration after initialisation is the file's content, included files merged in, overridden by command line parameters, then positional parameters, then explicit overrides. A file that cannot be read or an unknown or missing mandatory parameter makes initialisation fail.",
     ["inputs", "configurations"], "every combination of file content and command line", "The tests use one file and one command line.",
     ["icl_core_config/ConfigManager.cpp", "icl_core_config/Config.cpp", "icl_core_config/GetoptParser.cpp"], [("ConfigManager::initialise", "icl_core_config/ConfigManager.cpp")], TV, "Generated files and command lines.")
prop("G05", "An attribute tree keeps its structure through every edit",
     "Creating, finding, changing, copying, linking, unlinking and deleting nodes and attributes of an attribute tree has exactly the described effect on the tree as seen by walking it, and affects no other tree. A look-up yields the described node or the given default.",
     ["histories"], "every history of edits and look-ups", "The tests build one fixed tree.",
     ["icl_core_config/AttributeTree.cpp", "icl_core_config/AttributeTree.h"], [("AttributeTree, SubTreeList", "icl_core_config/AttributeTree.cpp")], TV, "Generated histories.")
prop("G06", "Saving and loading an attribute tree preserves it",
     "Saving an attribute tree whose names are unique among siblings and loading the result gives an equal tree: same nesting, descriptions, comments and attribute values; only nodes without any content may be left out. Included files appear in the loaded tree when asked for; otherwise the include line itself is kept and saved.",
     ["inputs"], "every tree of printable names and values", "The tests load a fixed file.",
     ["icl_core_config/AttributeTree.cpp"], [("AttributeTree::load, save, get", "icl_core_config/AttributeTree.cpp")], TV, "Generated trees.")
prop("G07", "File path decomposition and environment substitution are exact",
     "A file path is decomposed so that path, name and extension recombine to it, absolute and relative paths are told apart, and the absolute path of a relative one starts from the current directory; normalising never changes what a path denotes. Environment references are replaced by the variable's value (by its name if unset), and a text without references is unchanged.",
     ["inputs"], "every path text and environment", "The tests do not cover paths.",
     ["icl_core_config/AttributeTree.cpp"], [("FilePath", "icl_core_config/AttributeTree.cpp")], TV, "Generated paths.")
# --------------------------------------------------------------------------------------------- logging
prop("L01", "A log message reaches exactly the outputs whose levels admit it",
     "A message on an active stream whose level admits it is delivered exactly once to every connected output whose own level admits it, and to no other output; messages of an inactive stream, or below the stream's level, go nowhere and their arguments are not even evaluated. Changing a level, the activity or a connection takes effect for the next message, and every family of logging macros does the same.",
     ["histories", "configurations"], "every assignment of levels and every message", "The tests check one stream and one output.",
     ["icl_core_logging/LogStream.cpp", "icl_core_logging/LogOutputStream.cpp", "icl_core_logging/LoggingMacros_LLOGGING.h"], [("LogOutputStream::push", "icl_core_logging/LogOutputStream.cpp")], MC, "All level assignments.")
prop("L02", "Every admitted log message arrives once, intact and in order",
     "Every message a thread completes arrives at each admitting output exactly once, with exactly its own text, and one thread's messages arrive in the order in which they were written, whatever other threads log at the same time. Shutting logging down first delivers everything already written.",
     ["schedules"], "every interleaving of logging threads with the output thread and the shutdown", "The tests log from a few threads without looking at the output.",
     ["icl_core_logging/ThreadStream.cpp", "icl_core_logging/LogStream.cpp", "icl_core_logging/LogOutputStream.cpp"], [("ThreadStream::flush", "icl_core_logging/ThreadStream.cpp"), ("LogOutputStream::WorkerThread", "icl_core_logging/LogOutputStream.cpp")], TS, "As T01.")
prop("L03", "A log line is the format applied to the message's own metadata",
     "Every line an output writes is its format with each field replaced by the corresponding item of that message - time, level, stream, class, object, function, file, line and text - class, object and function with the prefix the format gives and only if they are not empty, milliseconds with at least the width it asks for, and items longer than their fixed limit cut there. No item of another message or of other memory ever appears.",
     ["inputs"], "every format and every message", "The tests print one format and nobody looks.",
     ["icl_core_logging/LogOutputStream.cpp"], [("LogOutputStream::parseLogFormat, printf", "icl_core_logging/LogOutputStream.cpp")], TV, "Generated formats and messages.")
prop("L04", "The text of a message is what was streamed into it, up to its limit",
     "The text of a message is the concatenation of the printed forms of what was streamed into it, cut at the buffer limit and always ended. A message that does not fit is cut and never damages another message or memory.",
     ["inputs"], "every sequence of values of every printable type", "The tests stream short texts.",
     ["icl_core_logging/ThreadStream.cpp", "icl_core_logging/ThreadStream.h"], [("ThreadStream::write", "icl_core_logging/ThreadStream.cpp")], TV, "Generated values.")
prop("L05", "Logging set-up follows the configuration and survives re-initialisation",
     "After initialisation the streams, outputs, levels and connections are those the configuration and the command line describe (a default output if no output is configured), and logging works again after a shutdown and another initialisation, or after configuring again. Logging to a stream before initialisation or after a shutdown initialises logging, with a warning, and does not fail.",
     ["configurations", "histories"], "every configuration and every sequence of initialisations and shutdowns", "The tests use one configuration.",
     ["icl_core_logging/LoggingManager.cpp"], [("LoggingManager", "icl_core_logging/LoggingManager.cpp")], TV, "Generated configurations.")
prop("L06", "A log file keeps every line through re-opening and rotation",
     "A file output appends every line to its file, keeps what was there, and when the day has changed moves the old content to a file named after the old day and continues in an empty one; with compression the same content is stored compressed. Re-opening or a failing rotation loses no line. Files of the same name with a date that are older than asked for are deleted, and no others (the clock does not run backwards).",
     ["histories", "configurations"], "every history of messages, re-openings and day changes", "The tests write no log file across a day change.",
     ["icl_core_logging/FileLogOutput.cpp"], [("FileLogOutput", "icl_core_logging/FileLogOutput.cpp")], TV, "Virtual clock.")
prop("L07", "Database logging stores one faithful row per message",
     "Every admitted message becomes exactly one row whose columns are the message's own items (cut to the documented limits of a message), whatever characters they contain, in the order of logging, and re-opening the database keeps its rows. With rotation, the first message of a new day moves the complete old database aside to a name with the date and continues in an empty one; if it cannot be moved, it is continued.",
     ["inputs", "histories"], "every text and every history of messages", "The tests do not read the database.",
     ["icl_core_logging/SQLiteLogDb.cpp", "icl_core_logging/SQLiteLogOutput.cpp"], [("SQLiteLogDb::writeLogLine", "icl_core_logging/SQLiteLogDb.cpp")], TV, "Generated messages.")
prop("L08", "Network logging sends one faithful datagram per message",
     "Every admitted message is sent as exactly one datagram to the configured address, containing the message's own items in the documented order. A quotation mark or backslash in an item is escaped by a backslash, so that a receiver can read every item back.",
     ["inputs", "histories"], "every text and every history of messages", "The tests do not receive datagrams.",
     ["icl_core_logging/UdpLogOutput.cpp"], [("UdpLogOutput", "icl_core_logging/UdpLogOutput.cpp")], TV, "Loopback network.")
# --------------------------------------------------------------------------------------------- rest
prop("P01", "Performance figures are computed from exactly the recorded samples",
     "Every sample recorded under a name while the monitor and the prefix are enabled, and no other, enters the figures of that name, and the number, average, median (of an even number of samples the upper middle one), minimum and maximum reported are those of exactly these samples. The time measured with a timer is the time since it was started, and with startStop() since the last lap, so that laps add up. Asking for a name without samples does no harm.",
     ["histories", "inputs"], "every history of samples, enabling and disabling", "No test covers the performance monitor.",
     ["icl_core_performance_monitor/PerformanceMonitor.cpp"], [("PerformanceMonitor", "icl_core_performance_monitor/PerformanceMonitor.cpp")], TV, "Generated histories.")
prop("P02", "The plugin registry lists exactly what was registered",
     "After loading, the registry offers exactly the plugins the loaded libraries declare, and creates instances of exactly the kind asked for. Asking for an unknown plugin yields nothing and changes nothing, and a library that cannot be loaded is reported and harms nothing.",
     ["histories"], "every sequence of loads and requests", "No test covers the plugin manager.",
     ["icl_core_plugin/PluginManager.h"], [("PluginManager", "icl_core_plugin/PluginManager.h")], TV, "Generated histories.")
prop("X01", "SHA-2 digests are those of the standard for every message and split",
     "The digest of a message is the one FIPS 180-4 defines, for every variant and every length, independent of how the message is split into parts. A cleared object can be used again as if new, and reading the digest does not change it.",
     ["inputs", "histories"], "every message and every split", "The tests hash a few standard vectors in one piece.",
     ["icl_core_crypt/Sha2.h", "icl_core_crypt/Sha2.hpp", "icl_core_crypt/Sha2Impl.hpp"], [("Sha2", "icl_core_crypt/Sha2.hpp")], TV, "The specification computes the digest itself.")
