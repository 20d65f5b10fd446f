# C20..C25: value types and data stores, which need no I/O.
PROPS["C20"] = P(
    title="Single-type data store behaves as a partial map over 16-bit addresses",
    statement="For every sequence of adds, sets, gets, range sets, range gets and validity queries, a bit or register store answers exactly as a map from the addresses that were added to the value last stored there: an add succeeds only for an absent address and never overwrites, and single accesses succeed only for present ones. A range of one or more addresses is valid exactly when every address in it was added and it ends at or below 65535 (ranges never wrap); a range access on any other range fails as a whole, with neither the store nor the caller's output changed. Nothing outside the addressed range is ever affected.",
    over=["histories", "inputs"],
    text="All histories of operations on all addresses 0..65535, all values, and all range lengths from one up to beyond the address space.",
    why="The upstream tests check a handful of small stores with fixed addresses; partially populated ranges, ranges across 65535, long ranges and interleavings of adds and range writes are unbounded.",
    files=["lib/include/modbus/server/db/SingleTypeDatabase.h", "lib/src/server/db/SingleTypeDatabase.cpp"],
    mechanism=[dict(name="range validation before any change", where="SingleTypeDatabase::is_valid_range, set_values, get_values"),
               dict(name="insertion that refuses existing keys", where="SingleTypeDatabase::add_value")],
    observe=["return values", "output arguments", "full read-back of the address window after operations"],
    state=[dict(name="m_values", meaning="address to value map", where="SingleTypeDatabase.h")],
    jobs=[J("h_core", "asan", "singledb", 2, 8, evals=r"(bits|registers)_ops", cost=8),
          J("h_core", "asan", "bigdb", 1, 8, evals=r"(bits|registers)_ops", cost=8)],
    rule="Random operation histories over a window of 24 addresses placed at 0, at 65535 or anywhere, with random population density, plus a completely populated table with ranges at both ends, copies that go their own way, and stores of thousands of values in long blocks with holes between them, with ranges that fill a block, end at its ends or reach over a hole; every result and, regularly, the whole window is compared with a map. A case is one history; it is distinct by its operations and base address and non-trivial because each has at least 20 operations that hit populated and unpopulated addresses.",
    technique="model-based runtime monitoring (online oracle per operation) under ASan/UBSan",
    note="Random histories up to 250 operations, exhaustive over addresses only for the fully populated table; not a proof. Ranges of zero addresses are left unspecified.")

PROPS["C21"] = P(
    title="In-memory database answers every Modbus request per the data model",
    statement="For every history of adds, requests and transactions, the in-memory database answers each read with exactly the requested number of (address, last stored value) pairs in ascending address order, and each write by storing all its values and echoing the address with the value or the quantity. If any address of the request is absent (or would lie beyond 65535) it answers with the Modbus exception for an illegal data address and changes nothing. Coils, discrete inputs, holding registers and input registers are four independent tables, and transaction accessors read and write the table they name.",
    over=["histories", "inputs"],
    text="All sequences of the four add operations, the eight requests, and transactions with all eight accessors, for all addresses, quantities of one up to and beyond the protocol's limits, and values.",
    why="The upstream tests sample each request once or twice on a small store; the interplay of tables, partially missing ranges, and the boundary at 65535 need all histories.",
    files=["lib/src/server/db/InMemoryDatabase.cpp", "lib/include/modbus/server/db/InMemoryDatabase.h", "lib/src/server/db/SingleTypeDatabase.cpp"],
    mechanism=[dict(name="per-request handlers over four stores", where="InMemoryDatabase::on_request"),
               dict(name="transaction accessors", where="InMemoryDatabase::get_*/set_*")],
    observe=["answers of every request", "contents of all four tables read back through transactions"],
    jobs=[J("h_core", "asan", "memdb", 2, 8, evals=r"memdb_.*", cost=8),
          J("h_core", "asan", "memdb_big", 1, 8, evals=r"memdb_.*", cost=7),
          J("h_e2e", "asan", "database", 1, 6, evals="requests|transactions", cost=2, keys="e2e-db-.*")],
    rule="Random histories of 30 to 80 operations over 8 to 48 addresses in four tables with different populations, the largest ranges at both ends of the address space, and tables of thousands of values in blocks of different shapes, with ranges up to 65535 and transactions of up to 1500 accesses; every answer is compared with a four-table model and the window is read back. Distinct by the operations with their results.",
    technique="model-based runtime monitoring (online oracle per request) under ASan/UBSan",
    note="Random histories; requests of zero addresses are left unspecified. The oracle is an independent four-map model.")

PROPS["C22"] = P(
    title="In-memory database operations and transactions are atomic and linearizable",
    statement="When several threads use one in-memory database at the same time, every add, request and transaction takes effect atomically at one point between its call and its return, so that some single order of the operations explains every result. A transaction's function runs exactly once, no other operation on the database takes effect while it runs, and no reader ever observes part of a multi-value write or of a transaction; if the function throws, the exception reaches the caller and the database remains usable.",
    over=["schedules", "histories"],
    text="All interleavings of any number of threads performing any operations on overlapping addresses.",
    why="The upstream tests are single-threaded; a missing or too narrow lock shows only under particular interleavings.",
    files=["lib/src/server/db/InMemoryDatabase.cpp", "lib/include/modbus/server/db/InMemoryDatabase.h"],
    mechanism=[dict(name="one mutex held for the whole of every operation and transaction", where="InMemoryDatabase (all public members)")],
    state=[dict(name="m_mutex", meaning="guards the four tables", where="InMemoryDatabase.h")],
    observe=["timestamped call/return history of every thread", "values of blocks always written as a whole", "ThreadSanitizer reports"],
    jobs=[J("h_core", "asan", "memdb_lin", 2, 10, evals="lin_histories|torn_reads|add_races", cost=3),
          J("h_core", "tsan", "memdb_lin", 1, 6, evals="lin_histories", cost=3),
          J("h_core", "asan", "memdb_torn", 2, 8, evals="torn_reads|torn_transactions|add_races", cost=4),
          J("h_core", "tsan", "memdb_torn", 1, 6, evals="torn_reads|torn_transactions|add_races", cost=4),
          J("h_core", "asan", "memdb_long", 1, 4, evals="long_.*", cost=2),
          J("h_core", "asan", "memdb", 1, 2, keys="memdb-transaction", cost=6)],
    rule="Short concurrent histories of 3-4 threads on a few addresses with yields injected inside transactions, each checked with a Wing-Gong linearizability search against the four-table model; and long runs in which blocks are only ever written whole while readers look for mixtures; and transactions that last for seconds, during which every other kind of operation is called and must wait. A history is non-trivial because its operations overlap in time (overlapping pairs are counted); distinct by operations and results in order of completion.",
    technique="offline linearizability checking of recorded histories, torn-read monitors, ThreadSanitizer",
    note="Interleavings are sampled by stress and injected yields, not enumerated; TSan additionally reports any unsynchronised access pair that was executed, whatever the interleaving.")

PROPS["C23"] = P(
    title="Expected holds exactly its value or its error, through every copy and move",
    statement="Whatever value or error an Expected was made from, and however it was copied, moved, nested or stored in containers, it reports valid exactly if it was made from a value; then it yields that value and has no error. Otherwise accessing the value throws the original error, an error query answers for exactly the error's own type and its base classes, and retrieving an error of any other type (or from a valid Expected) throws an invalid-argument error; an error passed as an object of a base class is refused. Every contained value and error is destroyed exactly once, copies are independent, and a failing copy leaves its source unchanged.",
    over=["inputs", "histories", "programs"],
    text="All value and error types and all sequences of construction, copy, move, access and destruction.",
    why="The upstream tests use two value types and a single copy or move; lifetime errors in the shared storage need sequences and instrumented types to show.",
    files=["lib/include/modbus/Expected.h"],
    mechanism=[dict(name="tagged union with explicit lifetime", where="Expected constructors and destructor"),
               dict(name="type test by rethrow", where="Expected::has_exception, get_exception<E>"),
               dict(name="slicing check", where="Expected::from_exception(const E&)")],
    observe=["every accessor of every live Expected after each operation", "counts of live values and errors", "AddressSanitizer/LeakSanitizer"],
    jobs=[J("h_expected", "asan", "expected", 2, 8, evals="expected_ops|failing_copies", cost=7),
          J("h_expected", "gasan", "expected", 1, 6, evals="expected_ops|failing_copies", cost=6),
          J("h_expected", "asan", "expected_threads", 1, 4, evals="expected_ops", cost=2)],
    rule="Random sequences of construction from values and from a family of polymorphic and non-polymorphic errors, copies, moves, vector growth, function returns and destruction, over fourteen value types (numbers, texts, containers, pointers, instrumented, over-aligned, exception and response types, and one with a list constructor that accepts itself), values that cannot be copied or whose copy throws, an Expected within an Expected, and errors with private, virtual and repeated bases, compiled with clang and with g++; after each step every accessor is compared with a model of what the object holds and the numbers of live objects are compared with the model. Distinct by the sequence of operations.",
    technique="model-based runtime monitoring with instrumented value types under ASan/LSan/UBSan",
    note="Type space sampled by a fixed family of value and error types; sequences are random.")

PROPS["C24"] = P(
    title="Identifiers and endpoints are faithful value types with stable textual form",
    statement="Unit identifiers, transaction identifiers and endpoints return exactly what they were made from, compare equal exactly if all their parts are equal (inequality is always the opposite), and equal unit identifiers hash equally; the default unit is 0xFF. Incrementing a transaction identifier steps by one, wrapping from 65535 to 0, with the usual pre- and post-increment results. Printing an identifier writes 0x and its value as two (unit) or four (transaction) upper-case hexadecimal digits on any stream, and leaves the stream's formatting state as it found it.",
    over=["inputs", "configurations"],
    text="All 256 unit values and their pairs, all 65536 transaction values, arbitrary host names and ports, and arbitrary prior stream formatting (base, fill, case, adjustment, precision, locale).",
    why="The upstream tests print and compare a handful of values on fresh streams; all values, pairs and stream states are beyond them.",
    files=["lib/include/modbus/UnitIdentifier.h", "lib/src/UnitIdentifier.cpp", "lib/src/TransactionIdentifier.h", "lib/src/TransactionIdentifier.cpp", "lib/include/modbus/Ipv4Endpoint.h", "lib/src/Ipv4Endpoint.cpp"],
    mechanism=[dict(name="comparison and increment operators", where="UnitIdentifier.h, TransactionIdentifier.h, Ipv4Endpoint.cpp"),
               dict(name="formatting independent of the stream", where="operator<< of UnitIdentifier and TransactionIdentifier")],
    observe=["all accessors, operators and formatted text"],
    jobs=[J("h_core", "asan", "idents", 1, 4, evals="compared|formatted", cost=2)],
    rule="Exhaustive over unit values and pairs, and over transaction values (increment, comparison with every one-bit neighbour); endpoints over a grid of host names and ports and random short names; printing on streams with random formatting state (base, fill, case, adjustment, sign, precision, a locale that groups digits), checked against snprintf and against the state before. Distinct by value.",
    technique="exhaustive value monitoring with independent oracle under UBSan",
    note="Exhaustive for unit and transaction values and unit pairs; sampled for endpoints and stream states. How a field width set before printing is applied is not specified.")

PROPS["C25"] = P(
    title="Loggers deliver exactly the records at or above their level, under their name",
    statement="A record logged through a logger reaches the configured sink exactly once, under that logger's name, with its level and with every argument formatted, if its level is at or above the logger's own level, and does not reach it otherwise; the level of a clone is the one it was given, and cloning changes neither the original's level nor its name. A channel logs under its own name, at the level it was created with. A null logger and its clones write nothing; a console logger writes whole lines to standard output only. This also holds when many threads log through shared sinks at the same time: records stay whole, and each thread's records keep their order.",
    over=["inputs", "configurations", "schedules"],
    text="All loggers and trees of clones, all pairs of logger level and record level, all messages, and any number of logging threads.",
    why="The upstream tests check one record per level on one logger; trees of clones, all level pairs and concurrency are beyond them.",
    files=["lib/src/logging/Logger.h", "lib/src/logging/LoggerFactory.cpp", "lib/src/logging/LoggingLevelConversion.h", "lib/include/modbus/logging/LoggerFactory.h", "lib/include/modbus/logging/LoggingLevel.h"],
    mechanism=[dict(name="level conversion and filtering", where="LoggingLevelConversion.h, Logger"),
               dict(name="clone with shared sinks", where="Logger::clone"),
               dict(name="factories", where="LoggerFactory.cpp")],
    observe=["every record a recording sink receives", "captured standard output and error"],
    jobs=[J("h_log", "asan", "levels", 2, 8, evals="log_calls", cost=2),
          J("h_log", "asan", "console", 1, 4, evals="log_calls", cost=1),
          J("h_log", "asan", "threads", 1, 4, evals="log_calls", cost=1),
          J("h_log", "tsan", "threads", 1, 4, evals="log_calls", cost=2),
          J("h_e2e", "asan", "loglevels", 1, 4, evals="channels", cost=1)],
    rule="Random trees of up to six loggers with random levels over one or two recording sinks and random records in five message forms (text and arguments with braces, long text), under any names, shared ones too, compared record by record with the expected list; console loggers with both output descriptors captured; five threads logging through shared sinks. Distinct by the tree and the records, or by the observed order of records.",
    technique="trace monitoring by a recording sink against an expected trace; ASan and TSan",
    note="Levels and forms are covered completely in each run; trees and thread interleavings are sampled. spdlog and fmt are trusted.")
