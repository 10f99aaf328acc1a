#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. A property is
claimed exactly when checks/<id>.py exists."""
import glob
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRV = "src/viriatum/"
COM = "src/viriatum_commons/"


def P(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, level="exploration", state=()):
    return {"id": pid, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe": observe, "technique": technique,
            "note": note, "level": level, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]}


ASAN = "ASan+UBSan build of the real server"
TESTS_UNIT = "The existing tests call a few library functions with fixed values and never start the server."

PROPS = [
    P("P01", "Hostile bytes never corrupt, crash, leak from or wedge the server",
      "Whatever bytes clients send, in whatever order and however connections end, the server never accesses memory outside "
      "of its objects, never executes undefined behaviour, never ends by itself and never leaks memory. "
      "Afterwards it still answers well formed requests of other clients as if the hostile ones never existed.",
      ["inputs", "schedules", "configurations"], "every byte stream on every connection, against every handler that ships with the server and both polling back ends",
      TESTS_UNIT + " No test feeds the parser with malformed, huge or truncated input.",
      [SRV + "http/http_parser.c", SRV + "stream/stream_http.c", SRV + "http/http_util.c", SRV + "handlers/*.c", SRV + "stream/stream_io.c", SRV + "polling/*.c"],
      [("request parser", SRV + "http/http_parser.c"), ("handlers' fixed buffers", SRV + "handlers/handler_file.c")],
      ["sanitizer reports", "exit status", "probe requests"],
      "ASan+UBSan+LSan build under generated and mutated hostile request streams, liveness probes",
      "Sampled inputs: violations are sanitizer reports, deaths, or probes answered differently."),
    P("P02", "Responses do not depend on how the bytes of the requests are split",
      "For every sequence of well formed requests the sequence of responses is the same however the bytes are divided into "
      "segments and whatever pauses are between them.",
      ["inputs", "schedules"], "all request sequences (several headers, bodies, chunked bodies) and all ways of splitting them into segments",
      TESTS_UNIT + " The parser is a resumable state machine: every byte is a possible suspension point and no test suspends it.",
      [SRV + "http/http_parser.c", SRV + "stream/stream_http.c", SRV + "handlers/handler_file.c"],
      [("marks carried across reads", SRV + "http/http_parser.c (MARK, buffer carry over)"), ("stream buffer", SRV + "stream/stream_http.c data_handler_stream_http")],
      ["responses on the wire"],
      "differential monitor: every segmentation of a stream against its single segment run, ASan+UBSan",
      "All single cut positions of sampled streams and random multi cuts."),
    P("P03", "Exactly one correctly framed response per request, in request order",
      "On a connection every well formed request gets exactly one response, in the order of the requests, with a length that is "
      "exactly the number of body bytes sent (none for HEAD and 304), whatever the methods, body codings and pipelining. "
      "A connection is kept exactly when the client asked for it, and otherwise closed right after the response.",
      ["inputs", "histories", "schedules"], "all histories of requests on a connection, pipelined or not, with and without bodies, over many concurrent connections",
      TESTS_UNIT + " Ordering and framing are properties of whole connection histories.",
      [SRV + "stream/stream_http.c", SRV + "http/http_parser.c", SRV + "http/http_util.c", SRV + "stream/stream_io.c"],
      [("write queue and callbacks", SRV + "stream/stream_io.c"), ("keep alive flags", SRV + "http/http_util.c write_http_headers_*"), ("pipelining lock/acquire", SRV + "stream/stream_http.c")],
      ["bytes on the wire of each connection"],
      "strict response framing monitor over random pipelined histories against a reference model, ASan+UBSan",
      "Sampled histories; file, default and template producers."),
    P("P04", "Static files are served exactly",
      "A GET of a path that maps to a regular file answers 200 with exactly the bytes of the file, their number as length and the type of its extension; "
      "a HEAD has the same headers and no body, a path that maps to nothing answers 404 and a folder without the final slash redirects to it. "
      "This holds for every file size, name, percent encoded spelling, reader speed and number of concurrent readers.",
      ["inputs", "configurations", "schedules"], "all file trees, file sizes, spellings of targets, locations and reader speeds",
      TESTS_UNIT + " No test serves a file.",
      [SRV + "handlers/handler_file.c", SRV + "http/http_util.c", SRV + "handlers/handler_dispatch.c"],
      [("chunked sending of the file", SRV + "handlers/handler_file.c send_chunk_handler_file"), ("path building", SRV + "handlers/handler_file.c url/path callbacks")],
      ["responses on the wire"],
      "oracle comparing each response byte for byte with a model of the site, ASan+UBSan, epoll and select back ends",
      "Sampled trees and requests; files do not change while served."),
    P("P05", "Byte ranges answer exactly the bytes they name",
      "A request with one valid satisfiable byte range of a file answers 206 with exactly those bytes, their number as length and a matching content range; "
      "invalid or not satisfiable ranges are never answered with wrong or foreign bytes.",
      ["inputs"], "all files, range headers (first-last, first-, -suffix, malformed, huge) and connection histories",
      TESTS_UNIT + " Off by one errors of range bounds depend on values no test samples.",
      [SRV + "handlers/handler_file.c"], [("range parsing and clamping", SRV + "handlers/handler_file.c header value and message complete callbacks")],
      ["status, Content-Range and body on the wire"],
      "oracle over range responses (exact slice, header consistency), ASan+UBSan",
      "Sampled files and ranges, all boundary combinations of small files."),
    P("P06", "A 304 is only answered while the validator still matches the file",
      "A request carrying the current validator of a file answers 304 without a body, and one carrying any other validator answers the complete current contents. "
      "Validators change when the modification time of the file changes, do not change while it does not, and a validator sent in one request of a connection never influences another request.",
      ["inputs", "histories"], "all histories of modifications of files and of conditional requests on kept connections",
      TESTS_UNIT + " The guarantee relates several requests and file changes over time.",
      [SRV + "handlers/handler_file.c"], [("etag generation and comparison", SRV + "handlers/handler_file.c")], ["status, ETag and body on the wire"],
      "history oracle of file versions and validators over kept connections, ASan+UBSan",
      "Sampled histories; validators have the granularity of one second documented by the modification time."),
    P("P07", "Nothing outside of the served folders is ever disclosed",
      "No request, however its path is spelled (dot segments, percent encodings, doubled slashes, absolute forms, null bytes, long paths), "
      "gets bytes, existence, listing or metadata of a file outside of the base path of the location that handles it.",
      ["inputs", "configurations"], "all request targets and configured locations, with no symbolic links in the served folders",
      TESTS_UNIT + " The spellings of a traversal are unbounded and interact with decoding, dispatch and path joining.",
      [SRV + "handlers/handler_file.c", SRV + "handlers/handler_dispatch.c", COM + "encoding/percent.c"],
      [("traversal check after decoding", SRV + "handlers/handler_file.c")], ["responses on the wire", "files opened by the server (strace style monitor)"],
      "canary files around the served folders plus a monitor of every path opened or queried, ASan+UBSan, unprivileged user",
      "Sampled and enumerated spellings (all short combinations of the tokens of a traversal)."),
    P("P08", "Protected locations answer only to valid credentials",
      "A location with basic authentication discloses a file only to requests whose Authorization header is a basic credential with a "
      "user and password of its password file; every other request gets 401 with the challenge of the location and none of the contents.",
      ["inputs", "configurations", "histories"], "all password files, Authorization header values and histories of requests on a connection",
      TESTS_UNIT + " Credentials are parsed from attacker controlled text; earlier requests of the connection must not authorize later ones.",
      [SRV + "handlers/handler_file.c", SRV + "http/http_util.c", COM + "encoding/base_64.c", COM + "formats/passwd.c"],
      [("basic authentication", SRV + "http/http_util.c auth_http"), ("authorization header state", SRV + "handlers/handler_file.c")], ["status and body on the wire"],
      "authorization oracle over generated password files and credentials on kept connections, ASan+UBSan",
      "Sampled credentials near valid ones (prefixes, case, encodings, separators)."),
    P("P09", "Requests are handled by the first location that matches",
      "The handler and base path of a request are those of the first configured location, in configuration order, whose expression matches its path; "
      "without any match the contents folder is served, and index names are resolved in the configured order.",
      ["inputs", "configurations"], "all configurations of locations (expressions, handlers, base paths, index names) and request paths",
      TESTS_UNIT + " The configuration space is unbounded.",
      [SRV + "handlers/handler_dispatch.c", SRV + "system/service.c"], [("location matching", SRV + "handlers/handler_dispatch.c"), ("loading of locations", SRV + "system/service.c load_locations_service")],
      ["which location's file is answered"], "differential oracle with an independent location matcher, ASan+UBSan",
      "Sampled configurations, expressions within the syntax common to the reference engine and PCRE."),
    P("P10", "Folder listings show exactly the entries of the folder",
      "The listing of a folder contains exactly its entries, each once, folders before files, sorted by name, with their type, size and modification time, "
      "and follows every later change of the folder.",
      ["inputs", "histories"], "all folders (number, names, sizes, kinds of entries) and histories of changes to them",
      TESTS_UNIT + " Listing goes through sort, map and template code whose interactions depend on the entries.",
      [SRV + "handlers/handler_file.c", COM + "io/file.c", COM + "structures/sort_map.c", COM + "template/*.c"],
      [("listing", COM + "io/file.c list_directory_file"), ("entry map", COM + "io/file.c entries_to_map_file")], ["listing on the wire through an own template"],
      "oracle reading the listing through an own template and comparing with the folder, ASan+UBSan",
      "Sampled folders up to a few hundred entries; names without characters of the template syntax."),
    P("P11", "The reverse proxy relays requests and responses faithfully",
      "A request to a proxy location is delivered exactly once to the upstream of that location, with the method, path, headers and body of the client, "
      "and the client gets exactly the response of that upstream to that request: status, headers and body bytes, whatever the framing of both messages and in order, also over kept connections. "
      "An upstream that can not be reached or gives no valid response is answered with 502, a response that it leaves incomplete never looks complete, and nothing it sends out of turn reaches any client. "
      "For a client that does not read, only a bounded part of a response is kept in memory, whatever its size, and the rest arrives unchanged once the client reads.",
      ["inputs", "histories", "fault_sequences"], "all requests and upstream responses (status, headers, framing, sizes, segmentations, endings) and histories of kept and aborted connections to several upstreams",
      TESTS_UNIT + " Two parsers and two connections are coupled asynchronously.",
      [SRV + "handlers/handler_proxy.c", SRV + "system/client.c", SRV + "http/http_parser.c"],
      [("relay and its buffers", SRV + "handlers/handler_proxy.c"), ("closing of either side", SRV + "handlers/handler_proxy.c close_backend_handler, close_proxy_connection")],
      ["bytes at the recording upstreams", "bytes at the client", "descriptors of the server"],
      "recording upstreams with planned responses and endings, offline comparison of the logs of both sides (exactly-once, exact contents), ASan+UBSan",
      "Sampled exchanges, epoll and select; a request that meets an upstream while it closes may get 502; connecting blocks the server (not judged)."),
    P("P12", "Finished connections give everything back",
      "After all clients are gone, however they went, the server holds no descriptor and no connection more than before, "
      "uses no processor time, and ends on a termination signal within seconds with all its memory released, also with connections open.",
      ["histories", "schedules", "fault_sequences"], "all histories of connections: complete, idle, aborted, half sent, slow readers, and the moment of the signal",
      TESTS_UNIT + " Resources are conserved over histories, not over a call.",
      [SRV + "stream/stream_io.c", SRV + "system/service.c", SRV + "polling/polling_epoll.c", SRV + "polling/polling_select.c"],
      [("removal of connections", SRV + "system/service.c"), ("delayed removal queue", SRV + "polling/polling_epoll.c")],
      ["/proc/<pid>/fd", "/proc/<pid>/stat", "LeakSanitizer at exit", "exit status"],
      "conservation monitor over descriptors, sockets, processor time and leaks at exit",
      "Sampled histories, both back ends; leak verdicts need ptrace to be available."),
    P("P13", "Faults of one client or file never reach the others",
      "When a client aborts, stalls or floods, a file shrinks, disappears or is not readable, or descriptors run out, "
      "the affected exchange ends in an error or a shorter connection but never in wrong bytes, and every other exchange still gets its exact answer.",
      ["fault_sequences", "schedules"], "all moments and combinations of these faults during concurrent transfers",
      TESTS_UNIT + " Faults have to hit between two steps of a transfer.",
      [SRV + "stream/stream_io.c", SRV + "system/service.c", SRV + "handlers/handler_file.c"],
      [("error paths of reading and writing", SRV + "stream/stream_io.c"), ("accepting", SRV + "system/service.c, polling/*.c")], ["responses of the unaffected clients", "sanitizers", "prefix check of affected transfers"],
      "fault injection (aborts, stalls, file changes, descriptor exhaustion) with exact response oracle for bystanders", 
      "Sampled fault times.", "exploration"),
    P("P14", "The configuration in effect is the one written",
      "Every option of the configuration file and of the command line takes effect as documented: ports, addresses, handlers, index names, templates and locations, "
      "whatever their order, spacing, comments and line endings, and the command line prevails.",
      ["configurations"], "all configuration files and command lines made of documented options",
      TESTS_UNIT + " One fixed ini text is parsed by the tests.",
      [SRV + "system/service.c", COM + "ini/ini.c", COM + "util/arguments_util.c"], [("loading of options", SRV + "system/service.c load_options_service")],
      ["listening sockets", "responses on the wire"], "oracle over observable effects of generated configurations, ASan+UBSan",
      "Sampled configurations."),
    P("P15", "TLS connections carry the same answers as plain ones",
      "With the secure connector enabled every request over TLS gets the same response as over a plain connection, for every size and segmentation, "
      "and clients that fail, stall or leave during the handshake or a transfer affect nobody else.",
      ["inputs", "schedules", "fault_sequences"], "all request histories, record segmentations and moments of failure",
      TESTS_UNIT + " No test opens a secure connection.",
      [SRV + "system/service.c", SRV + "stream/stream_io.c", SRV + "polling/*.c"], [("handshake and error handling", SRV + "stream/stream_io.c, polling/*.c")],
      ["responses over TLS", "sanitizers"], "site oracle over TLS with hostile handshakes, ASan+UBSan",
      "Sampled; system OpenSSL is trusted."),
    P("P16", "Handlers of the modules run once per request and answer exactly",
      "Each request to a location handled by the Lua module runs the handle function of the configured script exactly once and the client gets exactly the bytes it wrote; "
      "a failing script is answered with 500, is read again for the next request and never affects other requests. "
      "The gif module answers its fixed image and the diag module JSON with the port, modules and number of connections (the listening one included) of the server.",
      ["inputs", "histories", "schedules"], "all scripts that write one response per run, histories of script failures and repairs, and concurrent clients",
      TESTS_UNIT + " Modules are never loaded by the tests.",
      ["modules/mod_lua/src/viriatum_mod_lua/module/*.c", "modules/mod_gif/src/viriatum_mod_gif/module/*.c", "modules/mod_diag/src/viriatum_mod_diag/module/*.c", SRV + "module/loading.c"],
      [("script state and reload", "modules/mod_lua handler.c _send_response_handler_lua"), ("loading and unloading", SRV + "module/loading.c")],
      ["responses on the wire, numbered by the script itself"],
      "exactly-once monitor over responses numbered by the script, exact answers of gif and diag, ASan+UBSan",
      "Sampled scripts and histories; the Lua interpreter itself is trusted."),
    P("P17", "HTTP messages are parsed into exactly their parts, however divided",
      "For every sequence of requests or responses the parser gives exactly their methods, targets, versions, statuses, headers, framing and bodies, in order and once, "
      "and the ends of the messages exactly where they are, whatever the division of the bytes; names close to the framing headers are not taken for them, and messages with impossible "
      "lines, names, lengths or chunks are refused. It never reads past the bytes it was given.",
      ["inputs", "schedules"], "all sequences of requests and responses and all divisions, well formed or not",
      "No test calls the parser.",
      [SRV + "http/http_parser.c", SRV + "http/http_parser.h"], [("resumable state machine and marks", SRV + "http/http_parser.c process_data_http_parser")],
      ["events given by the real parser"],
      "trace monitor of the parser's callbacks against the generated message, every division equal, ASan+UBSan with the bytes not yet given poisoned", "Sampled messages and divisions; byte by byte included."),
    P("P18", "Worker processes serve as one server and end with it",
      "Built with support for worker processes, the server runs as many of them as asked (up to its maximum). Every connection is answered by exactly one process and exactly as a single process "
      "would; the loss or stop of a worker disturbs no connection of the others and no new one; idle processes use no processor, give their descriptors back, and at the end of the "
      "server every worker has ended too, its resources released and the address free.",
      ["inputs", "schedules", "faults", "histories"], "all numbers of workers, histories of connections, losses and stops of workers, and signals ending the server",
      TESTS_UNIT + " Nothing forks in the tests.",
      [SRV + "system/service.c", SRV + "stream/*.c", SRV + "viriatum.c"],
      [("forking and joining of workers", SRV + "system/service.c create_workers, join_workers"), ("shared listening socket", SRV + "stream/stream_io.c accept_handler_stream_io")],
      ["responses on the wire", "/proc: which process holds each connection, descriptors, processor use, remaining processes"],
      "online monitors over /proc and the wire of a server with worker processes under loss and stop of workers, " + ASAN + " (prefork build)",
      "Sampled histories; workers that are killed are not expected to be replaced."),
    P("P19", "A daemon serves detached, and its pid file names it exactly while it does",
      "Started as a daemon the command returns at once and successfully, and one process (with its workers, if any) keeps serving in a session of its own, with its output appended to its logs and exactly its process id in the "
      "pid file; the file stays while it serves, whatever happens to its workers, and is removed when it ends, however it is asked to. A start that fails leaves nothing running and no pid file, and "
      "asking for the help or the version prints it and starts nothing.",
      ["inputs", "faults", "histories"], "all earlier contents of the files, options, faults of their folders, and ways of ending",
      TESTS_UNIT + " The daemon is never started by the tests.",
      [SRV + "viriatum.c"], [("detaching and pid file", SRV + "viriatum.c daemonize, daemonclean"), ("signals", SRV + "viriatum.c kill_handler, ran_service")],
      ["the files below a scratch /var", "/proc: sessions, descriptors and processes", "responses on the wire"],
      "life-cycle monitor of the real daemon over /proc, its files and the wire, paths below /var redirected by a preloaded shim, " + ASAN, "Sampled histories."),
    P("P20", "Maps hold exactly the last value of every key set and not removed",
      "After any sequence of operations a hash map or sort map answers for every key the value last set to it, and nothing for keys never set or removed since, "
      "its size is the number of keys it holds, and iterating visits every held key exactly once (a sort map in the order of the keys' positions after sorting). "
      "This holds across growth, removals and keys whose hashes collide, without leaks or out of bounds accesses.",
      ["inputs", "histories"], "all sequences of set, get, unset, iterate and resize over integer and string keys",
      "The tests set and get a few fixed keys; no test reaches growth after removals or colliding hashes.",
      [COM + "structures/hash_map.c", COM + "structures/sort_map.c", COM + "structures/iterator.c"],
      [("open addressing, growth", COM + "structures/hash_map.c"), ("positions list", COM + "structures/sort_map.c")],
      ["answers of the real library to a command driver"],
      "model-based trace checking of the real library under ASan+UBSan+LSan, generated operation histories", "Sampled histories."),
    P("P21", "Linked and array lists behave as sequences",
      "After any sequence of operations a linked list or array list holds exactly the values of the model sequence in the same order, its size is their number, "
      "iterators visit them once in order, and clearing or deleting releases everything.",
      ["inputs", "histories"], "all sequences of append, set, get, pop, remove, clear and iterate",
      "The tests make a handful of fixed calls.",
      [COM + "structures/linked_list.c", COM + "structures/array_list.c", COM + "structures/iterator.c"],
      [("node links", COM + "structures/linked_list.c"), ("element addressing", COM + "structures/array_list.c")],
      ["answers of the real library to a command driver"],
      "model-based trace checking of the real library under ASan+UBSan+LSan, generated operation histories", "Sampled histories; array lists within their created capacity."),
    P("P22", "Priority queues pop in priority order and sorting sorts",
      "Popping from a priority queue always gives one of the values of least priority among those pushed and not popped, and every pushed value is popped exactly once. "
      "Sorting a linked list leaves a permutation of its values ordered by the given comparison, whatever the values and repetitions.",
      ["inputs", "histories"], "all push and pop histories and all lists to be sorted",
      "The tests push three fixed values and sort one fixed list.",
      [COM + "structures/priority_queue.c", COM + "sorting/quicksort.c"],
      [("heap sift", COM + "structures/priority_queue.c"), ("partition", COM + "sorting/quicksort.c")],
      ["answers of the real library to a command driver"],
      "model-based trace checking (conservation and order) of the real library under ASan+UBSan, generated histories", "Sampled histories."),
    P("P23", "Buffers join to exactly what was appended and values print themselves",
      "Joining a string buffer or linked buffer gives exactly the concatenation of everything appended in order, with its exact size, for every number and size of parts. "
      "Values of the dynamic type system (integers, floats, strings, lists, maps) print and release completely, "
      "so that nothing is lost, duplicated, leaked or accessed out of bounds.",
      ["inputs", "histories"], "all sequences of appended parts and all trees of values",
      "The tests join a few fixed strings.",
      [COM + "structures/string_buffer.c", COM + "structures/linked_buffer.c", COM + "structures/type.c"],
      [("block growth", COM + "structures/linked_buffer.c"), ("string representation", COM + "structures/type.c")],
      ["answers of the real library to a command driver"],
      "model-based comparison of joined and printed contents under ASan+UBSan+LSan, generated parts and trees", "Sampled."),
    P("P24", "Base 64 and percent encodings are exact and reversible",
      "Encoding bytes in base 64 or percent encoding gives the standard text, decoding it gives back the same bytes, for every length and byte value. "
      "Parameters joined into a query have every name once with its encoded value, or are refused when they do not fit. "
      "Malformed text (wrong lengths, incomplete percent sequences) never reads or writes out of bounds.",
      ["inputs"], "all byte strings, valid encodings and malformed texts",
      "The tests encode a few fixed words.",
      [COM + "encoding/base_64.c", COM + "encoding/percent.c"],
      [("padding and remainders", COM + "encoding/base_64.c"), ("sequence decoding", COM + "encoding/percent.c")],
      ["encoded and decoded bytes from the real library"],
      "differential monitor against the Python standard library and round trips on exact size buffers, ASan+UBSan", "Sampled; all lengths up to a bound and all byte values."),
    P("P25", "CRC-32, MD5 and SHA-1 digests are those of the standards",
      "The digest of any sequence of bytes equals the standard one whatever its length, alignment and the way in which it is divided into updates, and digesting never changes nor reads beyond the input.",
      ["inputs", "schedules"], "all byte strings, lengths, alignments and divisions into updates",
      "The tests digest one or two fixed strings in one update.",
      [COM + "checksum/crc_32.c", COM + "checksum/md5.c", COM + "checksum/sha1.c"],
      [("block buffering and length count", COM + "checksum/md5.c"), ("finalisation", COM + "checksum/sha1.c")],
      ["digests from the real library"],
      "differential monitor against hashlib and zlib on exact size and misaligned buffers, ASan+UBSan", "Sampled; every length up to a bound, every pair of updates near block borders."),
    P("P26", "RC4 ciphers exactly and deciphers what it ciphered",
      "For every key and message the cipher text is the one RC4 defines, applying it again with the same key gives the message back, and the state continues across consecutive messages.",
      ["inputs", "histories"], "all keys, messages and divisions of a stream into messages",
      "The tests cipher one fixed text.",
      [COM + "crypto/rc4.c"], [("permutation box", COM + "crypto/rc4.c")],
      ["cipher texts from the real library"],
      "differential monitor against an independent implementation, ASan+UBSan", "Sampled keys and messages."),
    P("P27", "Huffman coding gives back the same contents and is optimal",
      "Encoding any contents with the table computed from them and decoding (with the tree or the table) gives back exactly the same bytes, "
      "and the number of encoded bits is that of an optimal prefix code of the same frequencies.",
      ["inputs"], "all byte contents: empty, of a single symbol, skewed so that codes are long, and uniform",
      "The tests encode one fixed file without comparing its contents.",
      [COM + "compression/huffman.c", COM + "stream/bit_stream.c", COM + "structures/priority_queue.c"],
      [("tree and code construction", COM + "compression/huffman.c"), ("bit reading and writing", COM + "stream/bit_stream.c")],
      ["encoded and decoded files"],
      "round trip and optimality monitor over generated contents, ASan+UBSan+LSan", "Sampled."),
    P("P28", "Streams keep bytes and bits in order through seeks",
      "Reads from a memory, file or bit stream give exactly the bytes or bits written at those positions, after any sequence of writes, reads and seeks, "
      "and sizes and positions told are exact. Bit groups of 0 to 16 bits can be written in one grouping and read in any other, stepping back included.",
      ["inputs", "histories"], "all sequences of read, write, seek, size, tell and flush operations",
      "The tests write and read two fixed sequences of bits.",
      [COM + "stream/memory_stream.c", COM + "stream/file_stream.c", COM + "stream/bit_stream.c"],
      [("position and growth", COM + "stream/memory_stream.c"), ("window of bits and seek", COM + "stream/bit_stream.c")],
      ["bytes and bits given by the real streams"],
      "model-based trace checking of the real streams under ASan+UBSan+LSan, generated operation histories", "Sampled histories."),
    P("P29", "Bencoding round trips and refuses malformed buffers",
      "Encoding any value made of integers, strings, lists and maps gives its bencoding, in memory and in a file alike, and decoding it gives the value back. "
      "A buffer that ends early is refused, and any other damaged one is decoded or refused within memory and without leaking anything.",
      ["inputs"], "all values up to a depth and size, all damaged buffers",
      "The tests encode one fixed map and decode it back, without comparing.",
      [COM + "encoding/bencoding.c", COM + "structures/type.c"], [("recursive decoder over a cursor", COM + "encoding/bencoding.c")],
      ["encoded buffers and decoded values of the real library"],
      "differential and round trip monitor against an independent codec, mutated buffers under ASan+UBSan+LSan", "Sampled values and damages."),
    P("P30", "URLs, passwd and ini files and arguments are parsed exactly",
      "Every part of a URL, every user of a password file, every pair of an ini file and every argument of a command line is given exactly as written, "
      "whatever the sizes, line endings, order and repetitions; parts that do not fit are refused or truncated, and malformed texts never leave the bounds of memory or leak.",
      ["inputs"], "all URLs, passwd files, ini files and argument vectors, well formed or not",
      "The tests parse two fixed URLs.",
      [COM + "formats/url.c", COM + "formats/passwd.c", COM + "ini/ini.c", COM + "util/arguments_util.c"],
      [("character state machines with fixed buffers", COM + "ini/ini.c")],
      ["parts given by the real parsers"],
      "differential monitor against reference grammars over generated texts, mutated texts under ASan+UBSan+LSan", "Sampled texts."),
    P("P31", "Templates are expanded exactly",
      "Expanding a template gives its text unchanged with every output tag replaced by its value, every loop repeated once per item in order, and every condition kept exactly when it holds, "
      "at any nesting and size; names that are not assigned give nothing. Damaged templates never leave the bounds of memory, crash or leak.",
      ["inputs"], "all templates of out, foreach and if tags, all assigned values, all damages of a template",
      "The tests expand one fixed template without comparing the result.",
      [COM + "template/engine.c", COM + "template/handler.c"], [("tag parser and evaluation of the tree", COM + "template/handler.c")],
      ["expansions of the real engine"],
      "differential monitor against a reference expander over generated templates, damaged templates under ASan+UBSan+LSan", "Sampled templates."),
    P("P32", "Files, folders and the text utilities say exactly what is there",
      "Files are written and read back exactly, at any size, and operations that are not possible say so; the list of a folder has every entry once, of its type, size and time, folders first and each kind in order, "
      "for every name and path length; amounts of bytes and time, and the helpers of text, give exactly their definition within their buffers.",
      ["inputs", "configurations"], "all trees of files, names, sizes and times; all texts and amounts",
      "No test calls these functions.",
      [COM + "io/file.c", COM + "util/string_util.h"], [("directory listing and its buffers", COM + "io/file.c list_directory_file"), ("bounded formatting", COM + "util/string_util.h")],
      ["answers of the real functions over scratch trees"],
      "differential monitor against the operating system and reference definitions, ASan+UBSan+LSan on buffers of exact size", "Sampled trees and texts."),
    P("P33", "The thread pool runs every task exactly once, in order, on all its threads",
      "Every task inserted in a pool, by any number of threads and from tasks too, runs exactly once and sees what was written before its insertion; no task is lost when threads are idle or woken for nothing; "
      "a pool of one thread runs them in order of insertion, never more tasks than threads run at once, and all of the threads can work at once. The pool has no data races.",
      ["schedules", "histories"], "all interleavings of producers, workers and spurious wakes, all pool sizes",
      "The test of the pool only inserts tasks and does not check that they ran.",
      [COM + "thread/thread_pool.c", COM + "system/thread.h", COM + "structures/linked_list.c"], [("condition and queue under a lock", COM + "thread/thread_pool.c pool_runner_thread")],
      ["records left by the tasks"],
      "TSan and ASan builds under stressed producers with injected delays and spurious wakes, exactly once, order and parallelism monitors over the tasks' records", "Schedules the operating system produced under stress; not enumerated."),
    P("P34", "The memory pool never gives memory that is in use",
      "At every point of any history of allocations and releases the items in use of a pool are apart from each other and keep their contents, the pool counts exactly them, "
      "its memory stays proportional to the most that was in use, and all of it is given back with the pool.",
      ["histories"], "all sequences of allocations and releases across chunks, in any order of release",
      "The pool is disabled in the build that is tested.",
      [COM + "memory/memory_pool.h", COM + "memory/memory_pool.c"], [("free indexes of chunks and pool", COM + "memory/memory_pool.h pfree"), ("growing and shrinking", COM + "memory/memory_pool.h resize_memory_pool")],
      ["items given by the real pool and its counters"],
      "model-based trace checking of the pool enabled build, patterns in the items, ASan+UBSan+LSan", "Sampled histories of up to some six chunks."),
    P("P35", "Embedded in another program the service comes and goes",
      "A program that embeds the service (the native interface of Java) may create, run, stop and delete it any number of times, in plain or TLS, with one address or two, with any modules: each time it serves its files, "
      "tells the facts of the running service (and that there is none before and after), ends soon after it is asked to even with connections in use, closes all of them, frees its address, and gives back every descriptor, "
      "the memory and the modules, also when the start fails, which is told with its reason; descriptors of the rest of the program are never touched.",
      ["histories", "configurations"], "all sequences of creations, runs, stops, failing starts and deletions in one process, with connections in any state",
      "The tests never start the service, and no test builds the native interface.",
      [SRV + "jni/jni_service.c", SRV + "viriatum.c", SRV + "system/service.c", SRV + "module/loading.c"],
      [("creation and deletion of the service", SRV + "viriatum.c init_service, destroy_service"), ("start, loop and release", SRV + "system/service.c start_service, release_service"), ("calls of the interface", SRV + "jni/jni_service.c")],
      ["answers of the interface", "responses", "descriptors of the process", "connections let go"],
      "online monitor of the life cycle through the native interface with a stand-in of the virtual machine, descriptor conservation, ASan+UBSan+LSan at the end of the program", "Sampled programs of up to six lives, both polling back ends; the Java side itself is not run."),
]


def build():
    claimed = [p for p in PROPS if os.path.exists(os.path.join(TOP, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(TOP, "properties.jsonl"), "w") as handle:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            for where in p["files"] + [m["where"].split()[0] for m in p["mechanism"]] + [s["where"].split()[0] for s in p["state"]]:
                if where.startswith(("src/", "modules/")) and not glob.glob(os.path.join("/repo", where.rstrip(","))):
                    raise SystemExit("%s: no such anchor %s" % (p["id"], where))
            anchors = {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = p["state"]
            handle.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                     "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                     "anchors": anchors}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "none", "enable": "the checks observe the unmodified sources (sanitizer builds of /repo's tree), no hook is compiled in", "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                    "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                    "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in claimed],
        "not_applicable": [{"property": p["id"], "reason": p.get("na", "applicable, but its check is not built yet")} for p in PROPS if p not in claimed],
    }
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as handle:
        json.dump(manifest, handle, indent=1)
        handle.write("\n")
    print("%d properties, %d claimed" % (len(PROPS), len(claimed)))


if __name__ == "__main__":
    build()
