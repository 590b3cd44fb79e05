"The properties; tools/gen.py writes properties.jsonl and MANIFEST.json from here."

PROPS = []
NOT_APPLICABLE = {
}
NOTES = ''


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files.split(),
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'observe_at': list(observe),
            'hook_needed': hook,
        },
    })


P('C01', 'Wire framing does not depend on how the bytes arrive',
  "However the bytes received from the server are cut into pieces, and however reading is interleaved with writing, the message stream yields exactly the messages those bytes encode, in order, each once, with their exact types and bodies, and keeps the bytes of an incomplete message until they are complete. Asking whether a message is present, how many there are, or what is unread never changes that. A message with an impossible length is an error, never a message and never the end of the stream.",
  'inputs histories', 'every cut of the listed streams into pieces, every operation sequence to the depth, message sizes around the internal block sizes, all 256 type bytes; both implementations',
  'the tests write a few whole messages; which bytes fall together in one read is decided by the network and has exponentially many answers',
  'postgresql/protocol/pbuffer.py postgresql/port/_optimized/buffer.c postgresql/protocol/buffer.py',
  [('pq_message_stream', 'postgresql/protocol/pbuffer.py'), ('p_buffer linked blocks', 'postgresql/port/_optimized/buffer.c')],
  [('read position', 'offset of the first unread byte', 'pq_message_stream._start / p_place')],
  ['pq_message_stream.write/read/next_message/has_message/__len__/getvalue'])

P('C02', 'Protocol outcome is independent of how the socket schedules I/O',
  "For any sequence of protocol transactions, the bytes the server receives, the messages the transactions report, and the final connection state are the same however the socket splits sends and receives and however often it answers 'try again' or 'interrupted', both when transactions are run to completion and when they are stepped one transition at a time. Nothing is sent twice, nothing is lost, and no transaction ends before its last response.",
  'schedules', 'every placement of up to the bound of short sends, short reads (one byte, inside a header, at a message boundary +-1), EAGAIN and EINTR over listed transaction scripts; complete() and step()',
  'the tests talk to a local server over a blocking socket which practically always accepts and returns everything at once',
  'postgresql/protocol/client3.py postgresql/protocol/xact3.py postgresql/python/socket.py',
  [('message_data kept until sent', 'client3.Connection.send_message_data'), ('read/op offset protocol', 'client3.Connection.complete, step'), ('Instruction.last re-processing', 'xact3.Instruction.standard_put')],
  [('message_data', 'serialized data not yet accepted by the socket', 'client3.Connection'), ('read', 'messages read and not yet processed', 'client3.Connection')],
  ['bytes sent', 'Transaction.messages_received()', 'Transaction.error_message/fatal', 'Connection.state'])

P('C03', 'A server error leaves the session synchronised and reports that error',
  "When the server answers any command of a request sequence with an error, the caller gets exactly that error (fatal only if its severity says so), the protocol transaction finishes at the matching ready message, and the transaction status known to the client is the server's. The next request on the connection then behaves exactly as it would have on a connection where nothing had failed but the statements the error undid.",
  'programs fault_sequences', 'every short sequence of simple, extended, function-call and COPY requests in which any command can fail, followed by a probe, against a model server',
  'the tests provoke a handful of errors (syntax, division by zero) each at one place; the property is about every command at every position',
  'postgresql/protocol/xact3.py postgresql/protocol/client3.py postgresql/driver/pq3.py',
  [('skip to the Synchronize message', 'xact3.Instruction.standard_put'), ('hook tables', 'xact3.Instruction.hook'), ('error to exception', 'pq3.Database/_pq_complete')],
  [('last_ready', 'transaction status of the last ReadyForQuery', 'xact3.Instruction')],
  ['Instruction.error_message', 'Connection.state', 'exceptions raised by the driver and its next results'])

P('C04', 'A lost connection is always reported, never hangs, never looks complete',
  "When the connection breaks (end of file, reset, broken pipe) at any point of any exchange, the operation in progress fails with an error saying so, within finitely many socket calls; no operation reports success for work whose confirmation never arrived and no result set is presented as complete when its end was not received. Afterwards every further operation fails too, the connection reports itself closed, and closing it is safe.",
  'fault_sequences crash_points', 'the connection dies at every byte boundary class of every receive and at every send of each listed program, at the protocol and at the driver level',
  'the tests kill a connection twice, both while it is idle',
  'postgresql/protocol/client3.py postgresql/protocol/xact3.py postgresql/driver/pq3.py postgresql/python/socket.py',
  [('eof_error', 'client3.Connection.read_into'), ('fatal exceptions', 'client3.Connection.send_message_data, python.socket.SocketFactory')],
  [('fatal transaction stays on the connection', 'client3.Connection.xact', 'client3.Connection')],
  ['exception raised by each driver call', 'Connection.closed'])

P('C05', 'Asynchronous server messages are delivered exactly once and disturb nothing',
  "Notices, notifications and parameter-change reports may arrive between any two messages of any exchange on an established connection: each one that arrives is handed to the user exactly once, in order, with its contents intact, even when identical ones arrive together, and the results and state of the exchange are those it would have without them. A notice handler that raises does not harm the exchange.",
  'schedules histories', 'every placement of one and two asynchronous messages (also identical ones) at every message boundary of the listed exchanges, times how reads are split',
  'the tests raise notices from single statements; where the server emits them in the stream is up to its timing',
  'postgresql/protocol/xact3.py postgresql/driver/pq3.py postgresql/message.py',
  [('asynchook / _asyncs', 'xact3.Instruction.standard_put'), ('_receive_async', 'pq3.Connection')],
  [('_asyncs', 'asynchronous messages processed in this read', 'xact3.Instruction')],
  ['msghook calls', 'Connection._notifies via NotificationManager', 'results of the exchange'])

P('C06', 'COPY streams are carried byte for byte, however they are chunked',
  "A COPY moved through the copy manager delivers to the receiver exactly the bytes the producer emitted, whole rows at a time where rows are promised, and reports the right number of rows, messages and bytes, for every way the stream is cut into pieces. Wire data that is not COPY data is recognised at exactly the byte where the COPY ends.",
  'inputs schedules', 'every cut of copy streams (with empty, short and adjacent rows and completion messages) into chunks times recv buffer sizes',
  'the tests copy some thousand rows through default sized buffers; boundaries inside message headers are hit by chance only',
  'postgresql/copyman.py postgresql/port/_optimized/wirestate.c',
  [('WireState', 'copyman.WireState and port/_optimized/wirestate.c'), ('StatementProducer / StatementReceiver', 'copyman')],
  [('WireState remaining/size fragments', 'position inside the current message', 'copyman.WireState')],
  ['WireState.update results', 'bytes given to receivers', 'producer.count_messages/bytes'])

P('C07', 'Faulty receivers are isolated; the others still get the whole COPY',
  "When one receiver of a copy fails at any point, the copy can be continued and every other receiver still gets the complete stream from the beginning to the end without loss or repetition; the failure is reported with the receiver it belongs to and the exception it raised. When the producer fails, or the last receiver does, the copy ends with a report and every statement receiver's COPY is aborted, never committed as if it were complete.",
  'fault_sequences histories', 'every set of receivers failing at every point of a copy times every reconcile or drop decision of the caller',
  'the tests fault one receiver at one point',
  'postgresql/copyman.py',
  [('CopyManager faults and reconcile', 'copyman.CopyManager'), ('Fault, ReceiverFault, ProducerFault', 'copyman')],
  [('receivers', 'set of receivers still served', 'copyman.CopyManager')],
  ['receivers', 'CopyManager iteration', 'CopyFail raised'])

P('C08', 'Transaction blocks do what they say for every nesting and outcome',
  "A transaction block that ends normally is committed, one left by an exception is rolled back, and so are all the blocks nested in it, whatever the nesting, the place of the failure and whether failures were handled inside; effects visible afterwards are exactly those of the committed blocks. A block whose commit fails, or one started again after its end or ended out of order, raises an error and never reports success, and repeating the call that ended it changes nothing. The exception that left a block is the one the caller sees.",
  'programs histories', 'every program of blocks nested to the depth, with statements that succeed or fail and exceptions that are handled or not at each level, and every short sequence of explicit begin, commit and rollback calls',
  'the tests run about twenty hand-written nestings',
  'postgresql/driver/pq3.py',
  [('Transaction start/commit/rollback, __enter__/__exit__', 'pq3.Transaction'), ('savepoints', 'pq3.Transaction._savepoint_xact_string')],
  [('_level, state', 'nesting level of the block and its life cycle', 'pq3.Transaction')],
  ['rows visible afterwards', 'exceptions raised', 'Connection.xact state reported by the server'])

P('C09', 'Every way of reading or loading rows moves exactly those rows',
  "For any query, all the ways to read its result (all at once, by row, by chunk, by column, first value, declared cursor with any sequence of reads and seeks) give exactly the rows the query has, in order, with no row missing, repeated or misattributed, whatever the chunk size. A cursor position behaves like an index into that list in both directions, and an error in the middle of a result set is raised, not turned into a shorter result. Rows loaded through a statement in batches of any size are stored once each and in order, up to the first batch that fails, whose error is raised.",
  'programs inputs', 'every row count 0..N times every chunk size times every way to read, every sequence of read and seek calls to the depth, an error at every row',
  'the tests use a few row counts and never vary the fetch size around them',
  'postgresql/driver/pq3.py postgresql/protocol/xact3.py',
  [('Output, Chunks, Rows, Column, Cursor', 'pq3'), ('Statement.rows/chunks/column/first/declare', 'pq3.SingleXactFetch, MultiXactStream')],
  [('cursor position', 'row the server cursor is on', 'server portal'), ('_last_increase, _last', 'transaction position', 'pq3.Output')],
  ['values returned by every reading method'])

P('C10', 'The C accelerators behave as the portable Python code does',
  "With or without the optional C extension the library computes the same: for every input each accelerated routine returns an equal result of equal types or raises where the portable one raises, and no input makes it crash, read out of bounds or leak references.",
  'inputs configurations', 'every argument from small domains (boundary integers, lengths, NULLs, wrong types and truncated data) for every accelerated routine, in both builds',
  'the tests exercise some routines, and only the build that happens to be installed',
  'postgresql/port/_optimized/module.c postgresql/port/_optimized/functools.c postgresql/port/_optimized/structlib.c postgresql/port/_optimized/element3.c postgresql/port/_optimized/wirestate.c postgresql/port/_optimized/buffer.c postgresql/python/structlib.py postgresql/python/functools.py postgresql/protocol/element3.py postgresql/protocol/xact3.py postgresql/copyman.py postgresql/types/io/lib.py',
  [('optional imports', 'try: from ..port.optimized import ... except ImportError')],
  (), ['return values, exceptions and reference counts of both builds'])

P('C11', 'Wire messages survive a round trip and malformed ones are refused',
  "Every protocol message built from field values is serialised to the bytes the protocol prescribes and is parsed back to an equal message, including empty strings, NULLs, empty tuples and repeated fields. A body that is cut short or carries extra bytes is never accepted as another valid message (except for notices and errors, which are read as far as they go).",
  'inputs', 'every message class times small domains of every field, every truncation of its body',
  'the tests have one or two samples per message class',
  'postgresql/protocol/element3.py',
  [('serialize / parse', 'element3 message classes'), ('cat_messages', 'element3 and port/_optimized/element3.c')],
  (), ['Message.bytes()', 'Message.parse()'])

P('C12', 'Values survive the binary transfer formats exactly',
  "For every supported type, packing a value in the binary format and unpacking it again yields the same value, arrays and composites of it included, and the bytes are those the server itself uses for that value. A value the type cannot represent is refused with an error naming the parameter, never stored as a different value; a server value Python cannot represent is refused with an error naming the column.",
  'inputs', 'boundary values of each type (limits of every width, special dates, time zones, numeric digit groups, geometry, network and bit types), all arrays and rows of them to the shape bound',
  'the tests use about ten samples per type and skip several',
  'postgresql/types/io/__init__.py postgresql/types/io/lib.py postgresql/types/io/builtins.py postgresql/types/io/stdlib_decimal.py postgresql/types/io/stdlib_datetime.py postgresql/types/io/pg_bitwise.py postgresql/types/io/pg_geometry.py postgresql/types/io/pg_network.py postgresql/driver/pq3.py',
  [('oid_to_io', 'postgresql/types/io/*.py'), ('array and row io factories', 'pq3.TypeIO')],
  (), ['pack/unpack pairs of each type', 'values read back from a server'])

P('C13', 'Quoting is injective and reversible; splitting never cuts a literal',
  "Quoting any string as an identifier or as a literal yields text that the server reads back as that string and nothing else, whatever quotes, backslashes, dots or separators it contains. Splitting SQL text into quoted and unquoted parts, qualified names into components, or scripts into statements gives back the original when it is put together again and never cuts inside a quoted region.",
  'inputs', 'every string to the length bound over an alphabet of quote characters, backslash, dollar, separators and letters',
  'the tests have a few dozen strings; the interesting ones are combinations of adjacent quotes and tags',
  'postgresql/string.py',
  [('quote_* and split*', 'postgresql/string.py')], (), ['postgresql.string functions'])

P('C14', 'DB-API parameters reach the statement they were given for',
  "For every query text in the format and pyformat styles, each parameter reaches the server at the position its placeholder has, doubled percent signs become single ones, and text in quotes is left alone. Any mix of the fetch calls of a DB-API cursor returns each row once and in order, and commit, rollback and close have the effects the DB-API promises. The constructors make the values their arguments name.",
  'inputs programs', 'every query text over an alphabet of placeholders, percent signs, quotes and text to the bound; every sequence of fetch calls to the depth',
  'the tests use the generic DB-API suite with one placeholder per query',
  'postgresql/driver/dbapi20.py',
  [('_convert_query, _mkdict', 'dbapi20.Cursor'), ('Portal', 'dbapi20.Portal')], (), ['SQL and parameters sent', 'rows returned by the fetch calls'])

P('C15', 'Editing a configuration file changes only what was asked',
  "Setting, changing or removing settings in a configuration file writes a file in which exactly those settings have the given values, whatever comments, blank lines, duplicates, quoting and spacing it has, and every other line is preserved. What the file object then reports is what the server will read, and applying the same change twice is the same as once.",
  'inputs histories', 'every file of the line alphabet to the length, times every sequence of edits to the depth',
  'the tests edit one sample file',
  'postgresql/configfile.py postgresql/bin/pg_dotconf.py',
  [('alter_config, read_config, ConfigFile', 'postgresql/configfile.py')], (), ['file contents', 'ConfigFile mapping interface'])

P('C16', 'Connection parameters mean the same in every place they can be given',
  "An IRI and the parameters it stands for are converted into each other without loss, whatever characters are in the user, password, host, database and settings. Parameters from the environment, IRIs, options and keywords are combined with the documented precedence and none is invented or lost, and the password file gives the password of the first matching entry, with its escapes undone.",
  'inputs configurations', 'every combination of parameter sources, every small parameter set over an alphabet with the delimiters, every password file to the bound',
  'the tests have a table of samples without the delimiters in the values',
  'postgresql/iri.py postgresql/resolved/riparse.py postgresql/clientparameters.py postgresql/pgpassfile.py',
  [('serialize/parse', 'postgresql/iri.py'), ('normalize, resolve_password', 'postgresql/clientparameters.py')], (), ['iri.parse, iri.serialize', 'clientparameters.standard, collect', 'pgpassfile.lookup_pgpass'])

P('C17', 'Advisory lock objects hold what they say they hold',
  "An advisory lock object reports itself held exactly when its session holds those locks on the server, for every sequence of acquire, try-acquire and release, alone or nested and with other sessions competing; the last release, leaving a block or an error gives every lock back, each exactly once. A try-acquire that cannot get all locks keeps none of them.",
  'programs histories schedules', 'every sequence of operations of two lock objects on two sessions with overlapping keys to the depth, exclusive and shared',
  'the tests run a few sequences on one object',
  'postgresql/alock.py postgresql/lib/libsys.sql',
  [('acquire/release/__enter__/__exit__', 'alock.ALock')], [('_count', 'number of acquisitions not released', 'alock.ALock')], ['lock table of the server', 'ALock.locked()'])

P('C18', 'Notifications reach their listener once, in order, on the right connection',
  "Every notification a listening connection receives is delivered by the notification manager exactly once, in the order of arrival, attributed to that connection, with its channel, payload and process id, whatever the arrival is interleaved with and whether it came while another statement was running. Channels listened to, notified and stopped are exactly those named, whatever characters the names contain; a connection that breaks is reported and dropped, and the others continue.",
  'schedules histories', 'every interleaving of arrivals on two connections, timeouts, statements and failures to the depth; channel names over an alphabet with quotes and upper case',
  'the tests send a few notifications on one connection with generous time',
  'postgresql/notifyman.py postgresql/driver/pq3.py',
  [('NotificationManager', 'postgresql/notifyman.py'), ('listen, unlisten, notify', 'pq3.Connection')], [('garbage, connections', 'connections served', 'notifyman.NotificationManager')], ['iteration of NotificationManager', 'Connection.iternotifies'])

P('C19', 'Connecting ends connected as configured or with the right error',
  "For every answer a server can give during connection start-up, the client either ends connected with the requested user, database and settings, or raises an error of the class for the reason, having closed its sockets. Encryption policy is honoured: a connection for which encryption is required is never used, nor sent any start-up data or password, in the clear; each authentication request is answered as the method prescribes, and unknown ones are refused.",
  'fault_sequences configurations schedules', 'every ssl mode times every answer to the negotiation, every authentication request, every error and every cut of the stream during start-up; every sequence of fallback attempts',
  'the tests connect to one real server in a few of the modes',
  'postgresql/protocol/client3.py postgresql/protocol/xact3.py postgresql/driver/pq3.py postgresql/python/socket.py',
  [('Negotiation', 'xact3.Negotiation'), ('connect, negotiate_ssl', 'client3.Connection'), ('establish attempts', 'pq3.Connection.connect')], (), ['bytes sent and to which kind of socket', 'exception class', 'sockets closed'])

P('C20', 'Server-side statements and cursors are freed exactly once, and never while used',
  "A prepared statement or cursor that the driver created and the program dropped or closed is closed on the server exactly once, no later than the next request that can carry it, and one the program still uses, or gave a name to itself, never is. That holds for every order of creating, using, closing and dropping the objects, and in the presence of errors and rollbacks.",
  'histories', 'every sequence of creating, reading, closing, dropping, failing and rolling back over two statements and their cursors to the depth',
  'the tests drop one statement at a time and do not look at the server',
  'postgresql/driver/pq3.py postgresql/protocol/client3.py',
  [('register_statement, trash_*', 'client3.Connection'), ('take_out_trash', 'client3.Connection')], [('garbage_statements, garbage_cursors', 'names still to be closed', 'client3.Connection')], ['Close messages received by the server', 'statements and portals left on the server'])

P('C21', 'Settings objects always agree with the session',
  "What the settings interface of a connection reports is what the session has, after every sequence of gets, sets, updates, scoped changes, resets, server-side changes, errors and rollbacks, cached values included. A scoped change is undone when its block ends, however it ends.",
  'histories', 'every sequence of settings operations and transactions to the depth',
  'the tests set and read a few settings outside of transactions',
  'postgresql/driver/pq3.py postgresql/api.py',
  [('Settings, cache', 'pq3.Settings'), ('ShowOption', 'pq3.Connection._receive_async')], [('cache', 'values reported by the server', 'pq3.Settings')], ['Settings mapping interface', 'SHOW on the server'])

P('C22', 'Container types behave as the sequences and mappings they are',
  "Array, row, bit string and geometry values behave for every construction, index, slice, comparison and conversion exactly as the plain sequence or mapping of their elements does, with the documented lower bounds and dimensions. Values that differ compare unequal, those that are hashable hash equal when they are equal, and conversions back and forth lose nothing. Bit strings are true when a bit is set and take nothing but zeros and ones, and the arithmetic of points, segments, boxes and circles is that of the plane.",
  'inputs programs', 'every array shape and lower bound to the bound, every index and slice, every bit string to the length, every row to the width',
  'the tests check a few values of each type',
  'postgresql/types/__init__.py postgresql/types/bitwise.py postgresql/types/geometry.py postgresql/types/namedtuple.py',
  [('Array, Row', 'postgresql/types/__init__.py'), ('Varbit, Bit', 'postgresql/types/bitwise.py')], (), ['public methods of the types'])

P('C23', 'Every server error code becomes the exception documented for it',
  "Every five character error code is turned into the exception class registered for that exact code, or else for its class, or else into the generic error, always one that derives from the library's base for errors (or warnings, for warning codes), and the exception carries the code, message, severity and each detail field the library documents, as the server sent them. The mapping does not depend on what was looked up before.",
  'inputs', 'every code of the documented table, every class with unknown subclasses, every code over a small alphabet, in both orders of lookup',
  'the tests look up a few codes',
  'postgresql/exceptions.py postgresql/driver/pq3.py postgresql/message.py',
  [('ErrorLookup, WarningLookup, map_errors_and_warnings', 'postgresql/exceptions.py')], (), ['exception class and attributes'])

P('C24', 'SQL libraries bind every symbol to its own text and method',
  "A library file yields exactly the symbols its section headings name, each with exactly the text between its heading and the next, whatever the text contains, and bound to a connection each symbol runs its own statement in its own mode and returns what that mode promises. Two libraries, or two categories, do not interfere.",
  'inputs programs', 'every library file of the line alphabet to the length, every symbol type and method',
  'the tests load one library with a symbol per kind',
  'postgresql/lib/__init__.py',
  [('ILF, SQLFile parser', 'postgresql/lib/__init__.py'), ('Category, BoundSymbol', 'postgresql/lib/__init__.py')], (), ['Library.get_symbol', 'calls on bound symbols'])

P('C25', 'Managing a database cluster never loses track of the server',
  "Starting, waiting for, restarting, stopping and dropping a database cluster through its object leaves the server and its files in the state the call reports, for every timing of the server's reactions and every failure on the way.",
  'schedules crash_points', 'every interleaving of the polling calls with the start, end and signals of the server process, and the writing and removal of its pid file',
  'the tests start and stop one healthy server',
  'postgresql/cluster.py postgresql/installation.py',
  [('Cluster.start/stop/wait_until_started', 'postgresql/cluster.py')], [('daemon_process, pid file', 'the server that belongs to the cluster', 'cluster.Cluster')], ['Cluster.running()', 'calls to kill and Popen'])

P('C26', 'Stored procedures receive their arguments and return what they promise',
  "Calling a stored procedure passes each argument, positional or by keyword, to the parameter it belongs to, whatever the procedure's signature (names, OUT, INOUT and variadic arguments, overloads, schemas), positional arguments filling the gaps keywords leave; a call with too few, too many or unknown arguments is a TypeError and is not made. It gives a single value, a row, or an iterable of all values or rows, as the signature says.",
  'inputs programs', 'every signature of up to three arguments in every way of calling it, every sequence of calls to the depth',
  'the tests call a handful of functions with positional arguments',
  'postgresql/driver/pq3.py postgresql/lib/libsys.sql',
  [('StoredProcedure.__init__/__call__', 'postgresql/driver/pq3.py')], (), ['StoredProcedure.__call__', 'result rows'])

P('C27', 'Temporary contexts leave nothing behind',
  "Each block of a temporary context (postgresql.temporal) has a connection of its own, in a schema of its own, under the documented names. Leaving it, normally or by an error and at any depth, gives the names the meaning they had before (or none), closes the connections made in it and drops its schema; a context that cannot be entered changes no name; the temporary cluster, also one that could not be readied, is stopped and removed when its process ends, and by no other process.",
  'inputs crash_points', 'every sequence of entering, leaving, connecting and failing to the depth; every request and every cluster operation that fails, one at a time',
  'the tests use one context at a time, without failures',
  'postgresql/temporal.py',
  [('Temporal.push/pop/__enter__/__exit__', 'postgresql/temporal.py'), ('Temporal.init/destroy', 'postgresql/temporal.py')], [('builtins_stack, sandbox_id', 'open contexts', 'temporal.Temporal')], ['builtins', 'sessions and schemas of the server', 'calls to the cluster'])

P('C28', 'Encrypted connections are made as the certificates and the mode say',
  "For every combination of sslmode, root certificate, client certificate and answer of the server, a connection is encrypted exactly when the mode asks for it and the server offers it with a certificate the given root signed (and the client's, where the server wants one); with require nothing is ever said in the clear, bytes that precede the encryption are never taken for the server's, and otherwise the mode's fallback or an error follows. What is said over an encrypted connection is what would be said in the clear.",
  'configurations', 'every combination of mode, certificates on both sides, answers to the request for encryption and policies of the server, for every kind of connector',
  'the tests make no encrypted connection at all',
  'postgresql/python/socket.py postgresql/protocol/client3.py postgresql/driver/pq3.py',
  [('SocketFactory.secure', 'postgresql/python/socket.py'), ('connect, negotiate_ssl', 'client3.Connection'), ('_security, socket_factory_params', 'pq3.Connector')], (), ['bytes of the server\'s side', 'Connection.security', 'exception class'])

P('C29', 'pg_python and its console run the code they are given',
  "pg_python runs its contexts, in order, and then the one main it was given (a command, a script, standard input, a module, or the console) in one __main__, with the documented built-ins bound to one connection made with the parameters of the options, the environment and the locator; it stops at the first failure, ends with the status Python would end with, commits nothing that was not committed and leaves the built-ins, sys.argv and the environment as they were. In the console a line that starts with a backslash where a statement could is a command, any other is Python; no error ends the session. A password is only asked for where it can be answered, and code runs only once connected.",
  'inputs programs', 'every combination of kind of main, contexts and outcome; every session of the console to the depth; every sequence of answers to the prompt; every source of each parameter',
  'the tests run neither pg_python nor the console',
  'postgresql/bin/pg_python.py postgresql/python/command.py postgresql/clientparameters.py',
  [('command', 'postgresql/bin/pg_python.py'), ('Execution, ExtendedConsole', 'postgresql/python/command.py'), ('resolve_password', 'postgresql/clientparameters.py')], (), ['exit status, output', 'what the server was sent and keeps', 'built-ins, environment after the run'])

P('C30', 'Connections do not affect each other',
  "Connections used in different threads, or in turns by one, work as if each were alone: whatever the points at which their threads are switched, and whatever they share (the modules, a driver, a connector), each operation returns, raises and sends what it does when there is no other connection. Their encodings, formats of dates, types (also those with the same identifier), settings, names, transactions and authentication stay apart.",
  'schedules', 'two unlike sessions, one preempted at every line of the driver it executes (once, and twice within one function); every order of the operations of two and three sessions',
  'the tests use one connection in one thread',
  'postgresql/driver/pq3.py postgresql/protocol/*.py postgresql/types postgresql/types/io postgresql/exceptions.py postgresql/resolved/crypt.py',
  [('cache, namedtuple', 'postgresql/types/namedtuple.py'), ('TypeIO', 'postgresql/driver/pq3.py'), ('ErrorLookup', 'postgresql/exceptions.py')], [('module state', 'what the first use fills', 'types.io, exceptions, namedtuple')], ['results, exceptions and bytes of each session'])

P('C31', 'An installation is described as its programs report it',
  "An Installation shows what its pg_config reported: every form of a version becomes the documented (major, minor, patch, state, level), and its text again; every option given to configure is in configure_options with the value it was given, in full, or True, the last one winning; paths has the directories that were reported and the executables that exist, None for others. pg_config_dictionary has every line that has a value, also of the old releases that must be asked for each; a program that fails, is killed or hangs gives no information but an error, in bounded time. The default is PGINSTALLATION, or else the first pg_config of the PATH.",
  'inputs configurations', 'every form of version, every line of options to the depth, every set of files and directories to the size, every output of a program to the number of lines, every PATH to the number of directories',
  'the tests parse eight lines of options and two versions',
  'postgresql/installation.py postgresql/versionstring.py postgresql/python/os.py',
  [('split, unsplit, normalize', 'postgresql/versionstring.py'), ('Installation, parse_configure_options, pg_config_dictionary', 'postgresql/installation.py'), ('find_executable', 'postgresql/python/os.py')], (), ['attributes of the Installation', 'dictionary of a program that is run', 'text of a version'])
