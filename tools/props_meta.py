FULL = ('Every obligation generated from the current source is discharged for all inputs of the contract (no bound). '
        'Trusted: clang front end and two LLVM passes, the verifier itself, the SMT solvers, the library models listed in the evidence file. '
        'A native run of the same contracts on random inputs accompanies it as a bounded cross-check and is not counted as proof.')

prop('C01', 'An accepted log event reaches every handler once, in order; a denied one none',
     'For every log event, the filter of the root logger is asked first, with the event as it was passed in; if it denies the event no handler is called, '
     'and otherwise every handler is called exactly once, in the order in which the handlers were given, with the severity, message, attributes and formatted text of that event. '
     'The text of a lazily formatted message is produced only for an accepted event and at most once, and the text given to a handler that fails does not keep the event from the handlers after it. '
     'Moving a root logger, or replacing its filter, leaves these guarantees intact for the logger that is the result.',
     ['inputs', 'histories'],
     'Any number of handlers, any filter decisions, severities, message texts, formatted texts and attributes; any logger that was moved or given another filter.',
     'Tests log through one or two mock handlers with fixed messages; the guarantee is over every handler count, every message and every filter.',
     ['src/root.cpp', 'src/record.cpp', 'src/handler.cpp', 'include/blackhole/root.hpp'],
     [('filter before dispatch, handlers in order', 'src/root.cpp root_logger_t::consume'), ('record activation with the formatted text', 'src/record.cpp')],
     note=FULL)
prop('C02', 'Scoped attributes and wrappers: right attributes, right order, right lifetime',
     'An event carries the attributes given with it first, then the ones of the wrappers it went through (from the inner logger outwards as the wrappers add them), and then those of the '
     'scopes that are open on the current thread for that logger, innermost first. '
     'A scope contributes exactly from its creation to its destruction and only to its own logger; destroying it restores exactly the scopes that were open before it. '
     'Moving the logger while scopes are open keeps them attached to it. This holds as well for events that a handler logs by itself, and for the event it handles.',
     ['inputs', 'histories'],
     'Any attribute lists, any nesting of scopes and wrappers, any logger (moved or not) and any number of attributes per list.',
     'Tests open one or two scopes with literal attributes; the order and lifetime must hold for every nesting and every attribute list.',
     ['src/scope/manager.cpp', 'src/scope/watcher.cpp', 'src/scope/holder.cpp', 'src/wrapper.cpp', 'src/root.cpp'],
     [('scope stack per logger', 'src/scope/watcher.cpp'), ('owned scope attributes', 'src/scope/holder.cpp'), ('wrapper attribute merging', 'src/wrapper.cpp')],
     note=FULL)
prop('C03', 'Attribute values keep their kind and exact value through every conversion',
     'An attribute built from a null, boolean, integer of any width and signedness, floating point number, string or string view reports exactly that kind and value when read back, '
     'from the owned form and from the view form. Copying, moving, assigning (to itself as well) and taking a view of an attribute value preserve kind and value and leave the source '
     'of a copy as it was. Two values compare equal exactly when kind and value are equal, and asking for a different kind than the stored one is reported as an error.',
     ['inputs'],
     'Every value of every supported type, including extreme integers, empty strings and strings with any bytes.',
     'Tests use a handful of literals per type; the guarantee is over all values and all pairs of kinds.',
     ['src/attribute.cpp', 'src/attribute.hpp', 'include/blackhole/attribute.hpp'],
     [('variant conversions', 'src/attribute.cpp'), ('public constructors', 'include/blackhole/attribute.hpp')],
     note=FULL)
prop('C04', 'An owned copy of a record outlives the original and shows the same data',
     'A copy of a log record that owns its data shows the same message, formatted text, severity, thread, timestamp and attributes (same names, kinds and values, in the same order) as the record it '
     'was made from, also after the original record and every buffer it pointed to are gone. Moving such a copy, once or repeatedly, or moving it over another one, preserves all of that.',
     ['inputs', 'histories'],
     'Any message and formatted text, any number of attributes of every kind, any severity and time, and any sequence of the listed moves.',
     'Tests copy records with a few literal attributes; dangling views and lost attributes show only for other sizes and orders of destruction.',
     ['src/recordbuf.hpp', 'src/record.cpp', 'src/attribute.cpp'],
     [('deep copy of attributes and text', 'src/recordbuf.hpp recordbuf_t::flatten'), ('views rebuilt after a move', 'src/recordbuf.hpp')],
     note=FULL)
prop('C10', 'Conversion of a timestamp to UTC calendar time is exact',
     'For every time from 1970 to the end of year 9999, the calendar time computed for a timestamp (year, month, day, hour, minute, second, weekday, day of year) is the one of the proleptic Gregorian '
     'calendar in UTC, every field is within its range, and no daylight saving is applied.',
     ['inputs'],
     'Every second from 1970-01-01 00:00:00 to 9999-12-31 23:59:59.',
     'Tests compare a few instants; leap years, month ends and century rules need every second of the range.',
     ['src/util/time.hpp'],
     [('Gauss formula conversion', 'src/util/time.hpp gmtime')],
     note=FULL)
prop('C11', 'A timestamp pattern is rendered whole, field by field, for every time',
     'A timestamp pattern is written as strftime writes it for the calendar time given, except that %f is the microseconds as at least six digits, zero padded, and %s is the epoch of that time; an escaped percent sign starts '
     'neither. The text is appended to what was written before, however long it is; the time given is not changed by it, and a generator shows each time the same, whatever it showed before and whatever other threads show with it.',
     ['inputs', 'configurations', 'histories'],
     'Every calendar time (each field over its range, any UTC offset) and every 64-bit number of microseconds, for every conversion of strftime and 24 patterns mixing them; arbitrary patterns are only sampled.',
     'Tests format one instant per conversion.',
     ['src/datetime/generator.linux.cpp', 'src/datetime/generator.linux.hpp'],
     [('pattern parsing', 'src/datetime/generator.linux.cpp generator_t'), ('rendering', 'src/datetime/generator.linux.cpp visitor_t')],
     note=FULL + ' strftime and mktime are assumed contracts: functions of the calendar fields. That any other pattern is cut into the right pieces is only sampled (bounded).')
prop('C16', 'The severity filter passes exactly the events reaching its threshold',
     'A severity filter lets an event through exactly when the event severity is at least the configured threshold, whatever the message and attributes, and decides the same event the same way every time, whatever other threads ask it. '
     'Configuring such a filter without a threshold is an error.',
     ['inputs', 'configurations'],
     'Every threshold (64-bit) and every severity (32-bit).',
     'Tests check three severities around one threshold.',
     ['src/filter/severity.cpp'],
     [('comparison with the threshold', 'src/filter/severity.cpp')],
     note=FULL)
prop('C21', 'The blocking handler gives one formatted text to every sink, in order',
     'For every event, a blocking handler runs its formatter exactly once and then gives exactly the resulting text, together with that event, to every sink once, in the order in which the sinks were added. '
     'Texts of earlier events never appear in later ones. If the formatter fails, the failure is reported to the caller and no sink receives a partially formatted text. '
     'A formatter set later on the builder replaces an earlier one. A configured handler has the configured formatter and sinks, each made from its own part of the configuration; a part without a type is refused. '
     'Several threads may handle events at once, and a sink may hand another event to the same handler.',
     ['inputs', 'histories'],
     'Any number of sinks, any event, any formatter output, any sequence of events.',
     'Tests use one mock formatter and one sink.',
     ['src/handler/blocking.cpp', 'include/blackhole/extensions/writer.hpp'],
     [('format once, emit in order', 'src/handler/blocking.cpp blocking_t::handle'), ('builder', 'src/handler/blocking.cpp builder<blocking_t>')],
     note=FULL)
prop('C12', 'The file sink flushes at the configured pace and reads the amount exactly',
     'With a flush threshold of n events a file is flushed on every n-th write and on no other; with a threshold of n bytes it is flushed exactly when the bytes written reach a further multiple of n, '
     'so that fewer than n bytes are ever left unflushed after a write. Empty writes count for nothing and a threshold of zero never flushes. '
     'A threshold given as text is a decimal number optionally followed by B, kB, MB, GB, KiB, MiB or GiB and means exactly that many bytes; any other unit, and an amount that does not fit 64 bits, is refused.',
     ['inputs', 'histories', 'configurations'],
     'Every threshold up to 2^63, every write size up to 2^40, any number of writes (one write from any reachable state, and runs from the start), every number and unit.',
     'Tests use small literal thresholds and sizes.',
     ['src/sink/file/flusher/bytecount.hpp', 'src/sink/file/flusher/repeat.hpp', 'src/sink/file.cpp'],
     [('byte and event counters', 'src/sink/file/flusher/'), ('unit parser', 'src/sink/file.cpp parse_dunit'), ('configuration', 'src/sink/file.cpp factory<file_t>')],
     note=FULL)
prop('C13', 'The file sink appends each event, whole and in order, to the right file',
     'Every event given to a file sink is appended as its formatted text followed by one newline to the configured file, in order, and nothing else is written. The file is opened for appending at the first event '
     'and stays open until the rotation policy asks for another one; the first event after that goes to a newly opened file and the old one is closed exactly once. With stat rotation that happens '
     'exactly when the file at the path is gone or has another inode than the one opened. A file that cannot be opened is reported to the caller and the next event tries again.',
     ['inputs', 'histories', 'crash points'],
     'Any texts (any bytes, any length), any rotation decisions between events, any inode numbers, opening that fails any number of times.',
     'Tests write a few fixed lines to mock streams and never fail opening between writes.',
     ['src/sink/file.cpp', 'src/sink/file/stream.hpp', 'src/sink/file.hpp', 'src/sink/file/rotate/stat.hpp'],
     [('stream cache and rotation', 'src/sink/file.cpp file_t::backend'), ('line output and flush', 'src/sink/file.hpp backend_t::write'), ('inode watch', 'src/sink/file/rotate/stat.hpp')],
     note=FULL)
prop('C15', 'The syslog sink sends each text whole with the priority of its severity',
     'Each event is given to syslog exactly once, with its formatted text unchanged (also when it contains percent signs) and with the priority configured for its severity; a severity without a configured '
     'priority, including a negative one, is sent as an error. Without configured priorities everything is sent as an error.',
     ['inputs', 'configurations'],
     'Every severity (32-bit), every list of priorities, every text without NUL bytes up to 2^31-1 bytes.',
     'Tests cover construction only; emission needs a syslog daemon.',
     ['src/sink/syslog.cpp'],
     [('priority lookup and call', 'src/sink/syslog.cpp syslog_t::emit'), ('configuration', 'src/sink/syslog.cpp factory<syslog_t>')],
     note=FULL)
prop('C14', 'The console sink writes whole lines to its stream, coloured on terminals only',
     'Every event accepted by its filter is written to the chosen standard stream as its formatted text and one newline, then flushed; a denied event writes nothing, and nothing goes to any other stream. '
     'If the stream is a terminal and a colour other than the default applies to the event, the text is enclosed in that colour\'s escape sequence and the reset sequence; otherwise no escape sequence is written. '
     'Of the colours and streams set on a builder the one set last counts. The line is written under one lock that all console sinks share, so lines never intermix.',
     ['inputs', 'schedules', 'configurations'],
     'Every text (any bytes), every severity, every filter decision, every colour, terminal or not, either stream.',
     'Tests run without a terminal, so colours are never written, and on one thread.',
     ['src/sink/console.cpp', 'src/termcolor.cpp', 'src/sink/console.hpp'],
     [('line output under the lock', 'src/sink/console.cpp console_t::emit'), ('escape sequences', 'src/termcolor.cpp'), ('builder', 'src/sink/console.cpp builder<console_t>')],
     note=FULL)
prop('C06', 'The TSKV formatter writes one escaped field per datum in a fixed order',
     'A TSKV line is the word tskv followed by tab-separated name=value fields: the configured constants ordered by name, the timestamps, severity, pid, tid and message, then every attribute in order. '
     'Names, values and constants are escaped so that no tab, newline, NUL or other control character of a value, and no equals sign of a name, reaches the line as such; everything else is written unchanged, whatever its length. '
     'Fields that are removed are left out, renamed ones appear under their new name, and no other field is affected; timestamps are written by their own pattern in UTC or local time as configured.',
     ['inputs', 'configurations'],
     'Every text, key and value (any bytes, any length), up to a million attributes of any kind, every second from 1970 to 2096, every predefined or attribute field removed or renamed.',
     'Tests format a few short attributes without special bytes and with few mutations.',
     ['src/formatter/tskv.cpp'],
     [('line and escapes', 'src/formatter/tskv.cpp tskv_t::format'), ('mutations', 'src/formatter/tskv.cpp builder<tskv_t>'), ('configuration', 'src/formatter/tskv.cpp factory<tskv_t>')],
     note=FULL)
prop('C08', 'The string formatter renders every placeholder with the data of the event',
     'A formatted line is the literal text of the pattern, with {{ and }} standing for single braces, and in place of each placeholder the datum it names, in the order of the pattern and in the given format: '
     'message, severity as a number or as its configured name, process and thread as number, hexadecimal or name, the time of the event as a count of microseconds or by a date pattern in UTC or local time, and '
     'any attribute by its name. A named attribute shows the first one of that name; when there is none, an optional placeholder shows its default and a required one reports an error to the caller. '
     'The leftover placeholder shows every attribute exactly once, in order, each in its own pattern, with the separator between two of them and nowhere else, and prefix and suffix once when there is any.',
     ['inputs', 'configurations'],
     'Every message, key, value, separator, prefix, suffix and default (any bytes, any length), up to a million attributes, every severity, every second from 1970 to 2096, every list of severity names; '
     'patterns with every kind of placeholder. Literal texts of arbitrary bytes are checked on random inputs only.',
     'Tests format one record with a couple of attributes per pattern.',
     ['src/formatter/string.cpp', 'src/formatter/string/token.cpp', 'src/formatter/string/parser.cpp'],
     [('rendering of tokens', 'src/formatter/string.cpp visitor_t'), ('pattern to tokens', 'src/formatter/string/parser.cpp parser_t'), ('configuration', 'src/formatter/string.cpp factory<string_t>')],
     note=FULL)
prop('C05', 'An asynchronous sink delivers each accepted event once, whole and in order',
     'Every event that an asynchronous sink accepts is given to the wrapped sink exactly once, in the order of acceptance, with the message, text, severity, time and attributes it had when it was accepted, '
     'also when the caller has destroyed or changed its own data since. An event is dropped only when the queue is full and the policy is to drop; with the waiting policy the caller waits until there is room. '
     'Destroying the sink delivers everything accepted before and then stops its thread. An exception of the wrapped sink loses that event only. '
     'The builder and the configuration choose the queue size (a power of two from 2^2 to 2^20) and the policy that are used; other sizes and names are refused.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'Any events, any number of events in the queue and any interleaving of producers, consumer and destruction that the queue contract permits, every factor (64-bit), every policy name, any wrapped sink that throws or not.',
     'Tests emit one event, wait, and look at it; order, loss at shutdown and lifetime depend on the schedule.',
     ['src/sink/asynchronous.cpp', 'src/sink/asynchronous.p.cpp', 'src/sink/asynchronous.hpp', 'src/recordbuf.hpp'],
     [('queueing and consumer loop', 'src/sink/asynchronous.cpp'), ('overflow policies', 'src/sink/asynchronous.p.cpp'), ('builder and configuration', 'src/sink/asynchronous.p.cpp')],
     note=FULL + ' The lock-free queue of libcds is an assumed contract.')
prop('C07', 'The JSON formatter writes one object with every datum of the event once',
     'A formatted event is one JSON object followed, only when configured, by a line break. It holds message, lwp, thread, process, severity, timestamp and every attribute of the event, each as a member with its kind '
     'and value; infinities and NaN, which JSON does not know, are null. Each member is in the object at the route given for its name, all others are at the route for the rest; its name is the one it was renamed to, '
     'if any, and its value is written by the format given for its own name, if any. Severity is written by its configured name when it has one, the timestamp by the configured pattern in UTC or else as microseconds. '
     'With the unique option only the first attribute of each name is written. An attribute named like a part of a route gives way to the object there. Nothing of one event is left in the object of the next.',
     ['inputs', 'configurations'],
     'Every message, key, value, name and severity name (any bytes, below 4 GiB each), up to a million attributes of any kind, every severity, every second from 1970 to 2096; every datum routed, renamed or formatted.',
     'Tests format one or two short attributes and compare the text.',
     ['src/formatter/json.cpp'],
     [('members, routes and names', 'src/formatter/json.cpp json_t::inner_t::builder'), ('configuration', 'src/formatter/json.cpp builder<json_t>, factory<json_t>')],
     note=FULL + ' The document tree of rapidjson and std::set::insert are assumed contracts; the native cross-check runs the real ones, text escaping included.')

prop('C17', 'The configuration tree shows what the JSON text holds, or says what is wrong',
     'A node of the configuration tells its kind and gives its value exactly as it is written: booleans, 64-bit integers of either sign, doubles and strings of any characters. Asked for another kind it reports '
     'where the mismatch is, what was expected and what is there. Items of lists and members of objects are visited once each and in order; an item or a member is found by its index or name exactly when it is there, and '
     'what is looked up below something missing is missing, not an error. An incomplete text is refused.',
     ['inputs', 'configurations'],
     'Every scalar of every kind, every string and name (any bytes, below 4 GiB), lists and objects of up to a million items, every index (63-bit) and name, paths through three levels. The JSON grammar is checked on random texts only.',
     'Tests parse a few short texts.',
     ['src/config/json.hpp', 'src/config/json.cpp', 'src/config/option.cpp'],
     [('nodes', 'src/config/json.hpp json_t'), ('options', 'src/config/option.cpp'), ('reading', 'src/config/json.cpp factory<json_t>')],
     note=FULL + ' The parser of rapidjson is an assumed contract, exercised by the native cross-check only.')
prop('C18', 'The registry finds what was registered; the builder makes what is configured',
     'A handler, filter, formatter or sink factory is found under the name it was registered with, for its own kind only, and of two registered under one name the later is used; any other name is refused and nothing is made. '
     'Building a logger makes every handler of the named section once, in order, by the factory of its type (blocking when none is given) and from its own part of the configuration; '
     'events of the logger reach these handlers in that order. A handler that cannot be made is reported to the caller. A configured registry knows every essential sink, filter, formatter and handler.',
     ['inputs', 'configurations', 'histories'],
     'Any three registrations of any kinds under any names and any request; any number of handlers up to a million.',
     'Tests register one factory and build one fixed configuration.',
     ['src/registry.cpp', 'src/essentials.cpp'],
     [('lookup', 'src/registry.cpp default_registry_t'), ('building', 'src/registry.cpp builder_t'), ('essentials', 'src/essentials.cpp')],
     note=FULL)
prop('C22', 'The logging facade passes on what it is given and formats only on demand',
     'The facade hands the logger the severity, pattern and attributes exactly as they were given, whether or not the pattern is followed by a NUL character. With arguments the message text is that of the pattern applied to the arguments; '
     'it is made once, when the logger asks for it, and never otherwise, and stays as it is whatever is logged meanwhile. An attribute list given as the last argument becomes the attributes of the event and is no argument of the pattern. '
     'Patterns parsed at compile time give the same text as those parsed at run time.',
     ['inputs'],
     'Every severity, text, number and attribute list (up to a million), patterns of any text, with and without attributes; arguments of built-in and user types.',
     'Tests log a few fixed patterns to a logger that always asks for the text.',
     ['include/blackhole/extensions/facade.hpp', 'include/blackhole/extensions/facade.inl.hpp', 'include/blackhole/extensions/metaformat.hpp'],
     [('facade', 'include/blackhole/extensions/facade.hpp logger_facade'), ('lazy formatting', 'include/blackhole/extensions/facade.inl.hpp'), ('compile-time patterns', 'include/blackhole/extensions/metaformat.hpp')],
     note=FULL + ' The text that fmt makes of a pattern is an assumed contract; the native cross-check runs the real one.')
prop('C23', 'A root logger may be used, reconfigured and assigned by several threads',
     'While a thread logs through a root logger, other threads may log through it, replace its filter and assign another logger to it. An event is judged by one filter, the one before or the one after the change, and reaches '
     'all handlers of the logger that filter belongs to, or none; no handler is used after its end. Nothing configured is lost: after a filter was set and a logger was assigned, in either order or at once, '
     'the result is that of one of the two orders. What the threads share is written and used under its lock.',
     ['schedules', 'histories'],
     'Any decisions of the filters; every pair of the operations log, log lazily, set a filter and assign, with the second running at any point of the first: before a lock is taken, in the filter, in a handler or in the lazy text; the use of every shared word of memory.',
     'Tests use a logger from one thread.',
     ['src/root.cpp', 'src/util/deleter.hpp', 'include/blackhole/root.hpp'],
     [('reading and replacing the inner state', 'src/root.cpp root_logger_t::sync_t, inner_t'), ('filter', 'src/root.cpp root_logger_t::filter'), ('assignment', 'src/root.cpp root_logger_t::operator=')],
     note=FULL + ' Other threads act as whole operations at the points listed; memory is sequentially consistent.')
prop('C24', 'The network sinks send each text whole and reconnect when it is needed',
     'The TCP sink connects when an event is to be sent and there is no connection: it asks for the configured host and port and tries the addresses it is told, in order, until one accepts. The text of each event is sent whole '
     'and in order over one connection. An event that cannot be sent is reported with the error of the network, the connection is closed, and the next event is sent over a new one. Connections are made and used '
     'under one lock. The UDP sink sends each event as one datagram to the first address of the host. Host and port are those of the configuration; a missing one, or a port above 65535, is refused.',
     ['inputs', 'faults', 'histories', 'configurations'],
     'Every host and text (any bytes, below 4 GiB), every port, up to a million addresses, every combination of failures of resolving, connecting and sending; any three consecutive events of a TCP connection, up to a million datagrams.',
     'Tests run without a network: nothing is resolved, connected or sent.',
     ['src/sink/socket/tcp.cpp', 'src/sink/socket/udp.cpp'],
     [('connection and sending', 'src/sink/socket/tcp.cpp tcp_t'), ('datagrams', 'src/sink/socket/udp.cpp udp_t'), ('configuration', 'src/sink/socket/tcp.cpp, udp.cpp factory<>')],
     note=FULL + ' boost.asio is an assumed contract.')
prop('C25', 'The development handler shows each event whole on the standard output',
     'For every event the development handler writes to the standard output the UTC time with microseconds, the letter of the severity (D, I, W, E for 0 to 3, T for others), thread and process, '
     'the formatted text, and every attribute in order on its own line: its name in a column of 16 characters and its value. Each line is ended by a newline and flushed. '
     'Colours are written to a terminal only. An event is written under one lock that all such handlers share; '
     'a value that fails to format leaves neither that lock taken nor any trace in later events.',
     ['inputs', 'schedules', 'faults', 'histories'],
     'Every severity, text, name and value (any bytes, any length), two lists of up to a million attributes each, every second from 1970 to 2096, terminal or not; any three consecutive events of two handlers; 13 kinds of failure of a value.',
     'No test runs this handler.',
     ['src/handler/dev.cpp', 'src/termcolor.cpp'],
     [('tokens of a line', 'src/handler/dev.cpp dev_t::dev_t'), ('output under the lock', 'src/handler/dev.cpp dev_t::handle'), ('values', 'src/handler/dev.cpp view_visitor')],
     note=FULL)
prop('C19', 'A string view shows exactly the bytes it was made of',
     'A view made of a string, a literal or a pointer and a size shows exactly these bytes, NUL included, and copies of it show the same. An index or a starting position outside of the view is refused with an error and reads nothing; '
     'a part of a view is the bytes from the position, up to the given count or the end, whatever the count. Two views, or a view and a string, are equal exactly when they have the same bytes; '
     'otherwise one is less, a part before the whole and else by the first byte that differs. Writing a view to a stream writes all of its bytes.',
     ['inputs'],
     'Every text (any bytes, any length), every 64-bit index, position and count.',
     'The one test compares a view with a string.',
     ['include/blackhole/stdext/string_view.hpp'],
     [('access', 'include/blackhole/stdext/string_view.hpp operator[], substr'), ('comparison', 'include/blackhole/stdext/string_view.hpp operator==, operator<')],
     note=FULL + ' The order of bytes outside of ASCII is left open.')
