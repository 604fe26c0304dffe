#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, title
    P.append(d)
V = 'src/viriatum/'; C = 'src/viriatum_commons/'
NOT = 'The existing suite only exercises the commons library (linked list, priority queue, bit/file stream, ...) with one fixed example each; '

p('P01', 'Message parsing does not depend on how the bytes are segmented',
  'However the bytes of an HTTP request (or of a response framed by length or chunks) are split into consecutive reads, the server sees the same message: method, target, version, header names and values in order, body bytes and message boundaries are identical to those seen when all bytes arrive at once. A connection whose request arrives one fragment at a time gets the same response as one whose request arrives whole.',
  ['inputs', 'schedules'], 'all messages (bodies by length or chunked, pipelined sequences) and all ways to cut their bytes into reads',
  NOT + 'the HTTP parser has no test at all, and a test with whole buffers never reaches the resume-in-the-middle states.',
  [V + 'http/http_parser.c', V + 'stream/stream_http.c'],
  [('resumable state machine with marks', V + 'http/http_parser.c process_data_http_parser'), ('connection buffer growth and offsets', V + 'stream/stream_http.c data_handler_stream_http')],
  ['parser callbacks', 'bytes on the client socket'], [('parser state and marks', 'where in the message the previous read stopped')])
p('P02', 'Parsed messages carry exactly what was sent',
  'For every well-formed HTTP/1.x request or response the parsed method, target, version or status code, ordered header fields and body equal what was sent. Bodies framed by Content-Length or by chunked encoding (with extensions and trailers) are delivered byte for byte and the end of the message is recognised exactly where it is, also when further pipelined messages follow; the keep-alive decision follows the Connection header.',
  ['inputs'], 'all well-formed messages within the size limits', NOT + 'no HTTP message is ever parsed by it.',
  [V + 'http/http_parser.c', V + 'http/http_parser.h'],
  [('header tokenisation, content length and chunk size accumulation', V + 'http/http_parser.c process_data_http_parser')], ['parser callbacks and parser fields'])
p('P03', 'Malformed messages are rejected, never accepted as complete',
  'A request with an unknown method, a target with characters no URL has, a protocol without a numeric version, an invalid header name, a non-numeric or overflowing Content-Length or a non-hexadecimal or overflowing chunk size is reported as an error by the parser, and no message is delivered for it. The server closes such a connection without running the request.',
  ['inputs'], 'all single mutations of the listed kinds applied to arbitrary valid messages', NOT + 'no malformed message is ever parsed by it.',
  [V + 'http/http_parser.c', V + 'stream/stream_http.c'], [('error states of the parser', V + 'http/http_parser.c process_data_http_parser'), ('close on parser error', V + 'stream/stream_http.c data_handler_stream_http')],
  ['parser return value', 'client socket'])
p('P04', 'No input or connection behaviour crashes, corrupts or stalls the server',
  'Whatever bytes clients send and in whatever order they open, fragment, stall, half-close or reset their connections, the server process neither terminates nor accesses memory outside its objects, and it keeps answering well-formed requests of other clients correctly and promptly.',
  ['inputs', 'schedules', 'fault_sequences'], 'all byte streams and all interleavings of connect, send, stall, shutdown and reset over several concurrent connections',
  NOT + 'the server is never started by it.',
  [V + 'http/http_parser.c', V + 'stream/stream_http.c', V + 'stream/stream_io.c', V + 'polling/polling_epoll.c', V + 'system/service.c', V + 'handlers/handler_file.c'],
  [('connection life cycle', V + 'system/service.c close_connection'), ('outstanding operations', V + 'polling/polling_epoll.c'), ('read/write handlers', V + 'stream/stream_io.c')],
  ['process exit status and sanitizer reports', 'responses to probe requests'])
p('P05', 'Static files are served byte for byte with truthful metadata',
  'A GET for an existing file under the served root answers 200 with exactly the bytes of the file, a Content-Length equal to its size, the MIME type registered for its (case-insensitive) extension or none, an ETag and Accept-Ranges: bytes. This holds for every file size, contents and percent-encoded spelling of the name and however slowly the client reads; a name that does not exist answers 404. When the file changes while it is sent, the response keeps its length or the connection ends with it.',
  ['inputs', 'schedules'], 'all file names, contents and sizes (around the internal block size in particular), URL spellings, query strings and reader speeds', NOT + 'no file is ever served by it.',
  [V + 'handlers/handler_file.c', V + 'http/http_util.c', V + 'system/service.c'],
  [('chunked sending with write callbacks', V + 'handlers/handler_file.c _send_chunk_handler_file'), ('MIME type table', V + 'system/service.c')], ['client socket'])
p('P06', 'Requests never reach files outside the served directories',
  'No request target, however encoded (dot segments, percent encoding, embedded NUL, backslashes, repeated slashes, over-long names), makes the server disclose the contents, listing or existence of a file outside the directory configured for the matching location. A request whose file path climbs with dot-dot segments, has a NUL or a malformed escape or is too long answers with an error status.',
  ['inputs', 'configurations'], 'all request targets, for the default root and for locations with their own base path', NOT + 'no request is ever served by it.',
  [V + 'handlers/handler_file.c', V + 'handlers/handler_dispatch.c', C + 'encoding/percent.c'],
  [('decoding and validation of the path', V + 'handlers/handler_file.c _decode_path_handler_file')], ['client socket'])
p('P07', 'Byte ranges return exactly the requested bytes',
  'A single byte range request for a file of size n answers 206 with exactly the bytes from first to min(last, n-1), or the last k bytes for a suffix range, with matching Content-Length and Content-Range headers. A range that selects no byte answers 416, and a Range header that is malformed, of another unit, multiple or with numbers over 18 digits is ignored (full 200 response).',
  ['inputs'], 'all file sizes and all Range header values', NOT + 'no range is ever requested by it.',
  [V + 'handlers/handler_file.c', V + 'http/http_util.c'], [('range computation', V + 'http/http_util.c get_http_range_limits'), ('ranged reading', V + 'handlers/handler_file.c _send_chunk_handler_file')], ['client socket'])
p('P08', 'Cache validators are truthful',
  'The ETag of a file stays the same while its modification time does and changes when the modification time changes. A GET whose If-None-Match equals the current ETag answers 304 with no body, any other value gets the complete current contents.',
  ['inputs', 'histories'], 'all histories of writes, modification times and conditional requests', NOT + 'no conditional request is ever made by it.',
  [V + 'handlers/handler_file.c', C + 'io/file.c'], [('ETag from modification time', V + 'handlers/handler_file.c message_complete_callback_handler_file')], ['client socket'])
p('P09', 'Directories redirect, list completely or serve their index file',
  'A GET for a directory without trailing slash answers 307 to the same path with the slash added; with the slash it answers the first configured index file that exists there or else a listing that contains every entry of the directory (other than . and ..) exactly once and nothing else, with its kind, size and modification time, folders before files and each group ordered by name; its name is shown as it is and its link leads to it, whatever characters the name contains.',
  ['inputs', 'configurations'], 'all directory contents and all index file configurations', NOT + 'no directory is ever served by it.',
  [V + 'handlers/handler_file.c', V + 'handlers/handler_dispatch.c', C + 'io/file.c', V + 'resources/html/base/templates/listing.html.tpl'],
  [('listing through the template engine', V + 'handlers/handler_file.c message_complete_callback_handler_file'), ('index resolution', V + 'handlers/handler_dispatch.c url_callback_handler_dispatch')], ['client socket'])
p('P10', 'Protected locations are only served with valid credentials',
  'For a location with basic authentication a request is served if and only if its Authorization header carries, base64 encoded, a user and password pair present in the configured password file; otherwise it answers 401 with a challenge naming the configured realm and discloses nothing of the file. Locations without authentication are unaffected.',
  ['inputs', 'configurations', 'histories'], 'all password files, credentials, malformed Authorization headers and request sequences on one connection', NOT + 'no authenticated request is ever made by it.',
  [V + 'handlers/handler_file.c', V + 'http/http_util.c', C + 'formats/passwd.c', C + 'encoding/base_64.c'], [('credential check', V + 'http/http_util.c auth_file_http')], ['client socket'])
p('P11', 'Pipelined and concurrent requests get their own responses, in order',
  'On one connection the responses arrive in the order of the requests, one per request, each identical to what the same request gets on a fresh connection, whatever the pipelining depth, fragmentation and response sizes; the connection stays open after keep-alive requests and closes after the first other one. Requests of concurrent connections never influence each other.',
  ['inputs', 'schedules', 'histories'], 'all request sequences, fragmentations, reader speeds and interleavings of several connections', NOT + 'no connection is ever accepted by it.',
  [V + 'stream/stream_http.c', V + 'stream/stream_io.c', V + 'handlers/handler_file.c', V + 'polling/polling_epoll.c'],
  [('acquire and release of the HTTP connection', V + 'stream/stream_http.c'), ('write queue', V + 'system/service.c write_connection_c')], ['client socket'])
p('P12', 'Requests are dispatched to the first matching location',
  'A request is handled by the first location, in configuration order, whose regular expression matches its path (the query does not take part), with the part of the path after the match resolved inside the base path of that location, and by the default file handler when none matches. A location naming an unknown handler answers 500, and an invalid expression never matches.',
  ['configurations', 'inputs'], 'all lists of locations and all request paths', NOT + 'the dispatcher is never run by it.',
  [V + 'handlers/handler_dispatch.c', V + 'system/service.c', V + 'handlers/handler_file.c'], [('regular expression loop', V + 'handlers/handler_dispatch.c url_callback_handler_dispatch'), ('locations from configuration', V + 'system/service.c calculate_locations_service')], ['client socket'])
p('P13', 'The proxy is transparent',
  'A request to a proxied location reaches the backend configured for that location with the same method, remaining path and query, headers and body, and the response (status code, headers, body) comes back to the client, for bodies framed by length, chunked or by the end of the connection, of any size and however either side fragments them; interim responses and responses without a body (to HEAD, 204, 304) pass as they are. Only an X-Viriatum-Proxy header is added and trailers are dropped. A backend that cannot be reached or closes before answering gives 502 (the client connection stays if it asked for that), one that fails inside its body closes the client connection: none is left hanging. A backend that takes its time to accept or to answer holds back no other request.',
  ['inputs', 'schedules', 'fault_sequences'], 'all requests, responses, fragmentations, keep-alive sequences over several locations and backend failures', NOT + 'the proxy handler is never run by it.',
  [V + 'handlers/handler_proxy.c', V + 'handlers/handler_proxy.h', V + 'system/client.c'], [('request and response forwarding', V + 'handlers/handler_proxy.c'), ('backend connection', V + 'system/client.c _create_client_connection')], ['client socket', 'backend socket'])
p('P14', 'Configuration files and the command line are honoured',
  'Parsing an ini file yields exactly the sections, in order, and the key and value pairs written in it, whatever the spacing around the equals sign, comments, blank lines and line endings. Options given on the command line as --key=value, --key or -k are recognised with their values and override the file, which overrides the defaults.',
  ['inputs', 'configurations'], 'all ini files of the accepted grammar and all argument vectors', NOT + 'no ini file or argument vector is ever parsed by it.',
  [C + 'ini/ini.c', C + 'util/arguments_util.c', V + 'system/service.c'], [('ini state machine', C + 'ini/ini.c process_ini_file'), ('argument parsing', C + 'util/arguments_util.c process_arguments'), ('loading order', V + 'system/service.c load_options_service')], ['parsed maps', 'listening socket'])
p('P15', 'Template rendering follows the template semantics',
  'Rendering a template emits literal text unchanged, the value of each output tag, the body of a for-each tag once per list item in order with the item bound, and the body of an if tag only when its comparison holds, for arbitrarily nested tags. Names without value render as nothing, and no template or value makes the engine fail.',
  ['inputs', 'programs'], 'all templates of the supported tags and all variable assignments', NOT + 'the template engine is never run by it.',
  [C + 'template/engine.c', C + 'template/handler.c'], [('tokeniser', C + 'template/engine.c process_template_engine'), ('tree traversal', C + 'template/handler.c traverse_node_buffer')], ['rendered string'])
p('P16', 'The process starts as configured, refuses to start, or runs as a daemon',
  'With valid settings, from the file, the command line (which wins) or the defaults, the server listens on exactly the configured addresses and port, over TLS and IPv6 exactly when enabled (the certificate and key being the named files, their copies in the configuration folder or the default ones, in that order), with the configured number of worker processes and handler. With an address that is not valid or not local, a port in use or an unusable certificate or key it ends at once with a failure status and a message, leaving nothing listening. With --daemon the start returns at once and a process of its own session serves, its pid in the pid file until it ends. --help and --version print and end whatever the other arguments are.',
  ['inputs', 'configurations'], 'all combinations of these settings, their sources and faults', NOT + 'the main program is never started by it.',
  [V + 'viriatum.c', V + 'system/service.c', V + 'global/common.h'], [('arguments and daemon', V + 'viriatum.c execute_arguments, daemonize'), ('listeners and certificates', V + 'system/service.c start_service'), ('fallbacks of paths', V + 'global/common.h resolve_config_path')], ['listening sockets', 'processes', 'exit status', 'pid file'])
p('P17', 'The hash map behaves as a map under every history',
  'After any sequence of insertions and overwrites with integer or string keys a lookup returns the value most recently set for that key and nothing for a key never set. The size equals the number of distinct keys and iteration visits every entry exactly once, independently of collisions and growth.',
  ['histories', 'inputs'], 'all operation sequences, key sets (colliding ones in particular) and initial sizes', NOT + 'the hash map test inserts a handful of values without collisions or overwrites.',
  [C + 'structures/hash_map.c'], [('open addressing and resizing', C + 'structures/hash_map.c')], ['return values'])
p('P18', 'The sorted map keeps insertion order and map semantics',
  'After any sequence of insertions and overwrites a lookup in the ordered map returns the value most recently set for the key, and iteration visits each key once, in the order of first insertion, with its current value.',
  ['histories'], 'all operation sequences over integer and string keys', NOT + 'the ordered map has no test.',
  [C + 'structures/sort_map.c'], [('hash map plus list', C + 'structures/sort_map.c')], ['return values', 'iteration order'])
p('P19', 'Linked lists and array lists behave as sequences under every history',
  'Under any sequence of appends at either end or at an index, removals by value or index, peeks, pops, clears, sorts and iterations the linked list equals the corresponding mathematical sequence, including its size; an array list returns at each index the element most recently stored there.',
  ['histories'], 'all operation sequences', NOT + 'the linked list test runs one fixed sequence.',
  [C + 'structures/linked_list.c', C + 'structures/array_list.c', C + 'structures/iterator.c'], [('node links and size', C + 'structures/linked_list.c'), ('growth', C + 'structures/array_list.c')], ['return values', 'iteration'])
p('P20', 'Priority queues pop the smallest element first, ties in insertion order',
  'After any interleaving of pushes and pops each pop returns the element that compares smallest among those present, the oldest one among equals, and reports emptiness when none is left.',
  ['histories'], 'all interleavings of pushes and pops with all comparison outcomes', NOT + 'the priority queue test pushes one fixed sequence.',
  [C + 'structures/priority_queue.c'], [('ordered insertion', C + 'structures/priority_queue.c')], ['popped values'])
p('P21', 'Buffers concatenate exactly what was appended',
  'Joining a string buffer or linked buffer yields the concatenation of the appended pieces in order with the correct total length, whatever their number, sizes (empty included) and contents, and a buffer can be joined again after more appends.',
  ['inputs', 'histories'], 'all sequences of appends and joins', NOT + 'string buffer test appends a few constant strings.',
  [C + 'structures/string_buffer.c', C + 'structures/linked_buffer.c'], [('piece lists', C + 'structures/string_buffer.c join_string_buffer')], ['joined bytes'])
p('P22', 'Sorting yields an ordered permutation',
  'Sorting an array or a linked list with a comparison function yields a permutation of the input in non-decreasing order, for every length, duplication pattern and initial order, and touches nothing outside the given range.',
  ['inputs'], 'all sequences, sub-ranges and comparison functions', NOT + 'quicksort test sorts one fixed array.',
  [C + 'sorting/quicksort.c', C + 'structures/linked_list.c'], [('quicksort', C + 'sorting/quicksort.c')], ['resulting sequence'])
p('P23', 'Base64 encodes per RFC 4648 and decodes what it encodes',
  'Encoding any byte string gives its standard padded base64 text and decoding that text gives the original bytes and length back. Text whose length is not a multiple of four or that has characters outside the alphabet is rejected with an error.',
  ['inputs'], 'all byte strings and all texts', NOT + 'the base64 test uses two constants.',
  [C + 'encoding/base_64.c'], [('encode and decode loops', C + 'encoding/base_64.c')], ['buffers and error codes'])
p('P24', 'Percent encoding round-trips',
  'Encoding any byte string yields only unreserved characters, plus signs for spaces and %XX escapes, and decoding it gives the original bytes back. Decoding any text replaces every well-formed escape, in either case, and plus sign and leaves other bytes unchanged, a malformed escape is an error and nothing is written past the decoded length.',
  ['inputs'], 'all byte strings and all texts', NOT + 'percent test uses one constant.',
  [C + 'encoding/percent.c'], [('hex conversion', C + 'encoding/percent.h')], ['buffers and error codes'])
p('P25', 'Bencoding round-trips and rejects malformed input',
  'Encoding any value built from integers, byte strings, lists and string-keyed dictionaries gives its canonical bencoding for that order of keys, and decoding gives an equal value back. Decoding arbitrary bytes either yields a value or an error, never a crash or a partial value for truncated input.',
  ['inputs'], 'all nested values and all byte strings', NOT + 'bencoding test encodes two small values.',
  [C + 'encoding/bencoding.c', C + 'structures/type.c'], [('push parser', C + 'encoding/bencoding.c _run_bencoding_engine')], ['encoded bytes', 'decoded values'])
p('P26', 'Huffman compression round-trips',
  'Decompressing the compressed form of any data with the same code returns the original data, with both the tree and the table decoder, and no code assigned to a byte is a prefix of another.',
  ['inputs'], 'all byte strings up to 4000 bytes (longer ones with flat frequencies)', NOT + 'huffman test only encodes fixed files.',
  [C + 'compression/huffman.c', C + 'stream/bit_stream.c'], [('tree and prefix generation', C + 'compression/huffman.c')], ['files'])
p('P27', 'Bit streams store and return bits exactly',
  'The values written to a bit stream with given bit widths are laid out most significant bit first without gaps, and reading with the same widths (or any other partition) returns the same bits; seeking to a bit position continues from exactly that bit.',
  ['histories', 'inputs'], 'all sequences of writes, reads and seeks with all widths', NOT + 'bit stream test writes one fixed sequence.',
  [C + 'stream/bit_stream.c'], [('window and byte counter', C + 'stream/bit_stream.c')], ['bytes and values'])
p('P28', 'Memory and file streams behave as files',
  'Under any sequence of writes, reads, seeks, size and position queries a stream in memory or over a file behaves as an ideal file: reads return what was last written at those offsets and report the number of bytes available, and size and position are exact.',
  ['histories'], 'all operation sequences', NOT + 'file stream test writes and reads one fixed file.',
  [C + 'stream/memory_stream.c', C + 'stream/file_stream.c'], [('stream operations', C + 'stream/io_stream.h')], ['bytes, sizes and positions'])
p('P29', 'Checksums equal their published algorithms',
  'MD5, SHA-1 and CRC-32 of any data equal the values of the published algorithms, in one call or in any division into incremental updates, and leave the data unchanged.',
  ['inputs', 'histories'], 'all byte strings (lengths around the block sizes in particular) and all divisions into updates', NOT + 'digest tests use a few short constants.',
  [C + 'checksum/md5.c', C + 'checksum/sha1.c', C + 'checksum/crc_32.c'], [('block processing and padding', C + 'checksum')], ['digests'])
p('P30', 'The stream cipher equals RC4 and is its own inverse',
  'Ciphering any data with any key gives the RC4 keystream combination, also when the data is processed in several calls, and ciphering the result with the same key gives the data back.',
  ['inputs', 'histories'], 'all keys, byte strings and divisions', NOT + 'rc4 test uses few constants.',
  [C + 'crypto/rc4.c'], [('key schedule and generator', C + 'crypto/rc4.c')], ['ciphered bytes'])
p('P31', 'URLs are decomposed into their components',
  'Parsing a URL of the form scheme://[user:password@]host[:port]/path[?query][#fragment] yields exactly those components, absent ones reported as absent, through both parsing interfaces. Text without scheme, host separator or path is an error and no text makes the parser read or write outside its buffers.',
  ['inputs'], 'all combinations of components and all texts', NOT + 'the URL test parses one constant.',
  [C + 'formats/url.c'], [('URL state machine', C + 'formats/url.c parse_url')], ['components'])
p('P32', 'Request parameters are encoded unambiguously',
  'Encoding a map of names to byte values as request parameters gives name=value pairs joined by &, each side percent-encoded, such that decoding the text gives exactly the same map; the input is unchanged and a buffer too small is an error.',
  ['inputs'], 'all maps of names and values and all buffer sizes', NOT + 'parameter encoding has no test.',
  [V + 'http/http_util.c', C + 'encoding/percent.c'], [('parameter joining', V + 'http/http_util.c parameters_http')], ['encoded text'])
p('P33', 'The thread pool runs every task exactly once',
  'Every task inserted in a thread pool runs exactly once per insertion, in insertion order when the pool has one thread, whatever the number of threads, tasks and inserting threads and their interleaving.',
  ['schedules', 'histories'], 'all numbers of threads and tasks, insertion patterns and schedules', NOT + 'the thread pool test starts tasks without checking them.',
  [C + 'thread/thread_pool.c'], [('task list, lock and condition', C + 'thread/thread_pool.c')], ['task effects'])
p('P34', 'Modules load next to anything and their handlers answer every request',
  'Whatever files lie in the modules folder, the server starts, loads exactly the modules that are there (reported by the diagnostics), answers 500 for locations whose handler is missing, and unloads them in order when it ends. For every history of requests the gif handler answers its image, the diag handler a JSON document that is true, and the lua handler exactly what the script wrote for that request, or 500 when the script is missing, fails, misuses write_connection or writes nothing; a script that failed is read again for the next request.',
  ['inputs', 'configurations', 'histories'], 'all sets of files in the modules folder, all scripts built from successes, failures and misuses, and all histories of requests and script changes', NOT + 'no module is ever loaded by it.',
  [V + 'module/loading.c', V + 'system/service.c', 'modules/mod_lua/src/viriatum_mod_lua/module/handler.c', 'modules/mod_gif/src/viriatum_mod_gif/module/handler.c', 'modules/mod_diag/src/viriatum_mod_diag/module/handler.c'],
  [('loading and unloading', V + 'module/loading.c load_module, unload_module'), ('script state and responses', 'modules/mod_lua/src/viriatum_mod_lua/module/handler.c _send_response_handler_lua')], ['client socket', 'leak report at the end'],
  [('loaded script and interpreter globals', 'what the previous requests left in the interpreter')])
p('P35', 'Responses are the same over every transport',
  'A request gets the same response over plain TCP, TLS and IPv6, for every fragmentation of the request and size of the response, and a failed TLS handshake affects only its own connection.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'all requests, files, fragmentations and handshake failures', NOT + 'no listener is ever opened by it.',
  [V + 'system/service.c', V + 'stream/stream_io.c'], [('TLS accept, handshake, read and write', V + 'stream/stream_io.c'), ('listeners', V + 'system/service.c')], ['client socket'])
p('P36', 'The server stops in order from every state',
  'After a SIGTERM, SIGINT, SIGHUP or SIGQUIT the server ends promptly with exit status 0, whatever its connections are doing at that moment (open, within a request or a response, served by a backend, in a TLS handshake, just closed): every connection is closed, released memory is never used, and a new server can listen on the same port and serve at once.',
  ['histories', 'schedules', 'fault_sequences'], 'all states of the connections and arrival times of the signal', NOT + 'no service is ever started or stopped by it.',
  [V + 'system/service.c', V + 'stream/stream_io.c', V + 'polling/polling_epoll.c', V + 'handlers/handler_proxy.c'],
  [('signal handlers', V + 'viriatum.c'), ('stop of the service', V + 'system/service.c stop_service, close_connections_service'), ('wait for events', V + 'polling/polling_epoll.c')], ['exit status', 'client socket', 'listening port'])
p('P37', 'File helpers report the real state of the file system',
  'Writing then reading a file returns the same bytes, its reported size, type and modification time are the real ones, a directory listing contains each entry exactly once, in its documented order and with its type and size, paths join with exactly one separator and the first existing candidate is chosen; missing files are errors.',
  ['inputs', 'histories'], 'all names, contents and directory trees', NOT + 'file helpers are only exercised with constants.',
  [C + 'io/file.c', C + 'io/file.h'], [('file operations', C + 'io/file.c')], ['return values'])
p('P38', 'Password files are parsed line by line',
  'Parsing a password file yields exactly one entry per user:password line with both parts complete, whatever their length and bytes, the presence of further colon-separated fields and a missing final newline; a repeated user keeps the last password.',
  ['inputs'], 'all password files', NOT + 'password file parsing has no test.',
  [C + 'formats/passwd.c'], [('line parsing', C + 'formats/passwd.c')], ['parsed map'])
p('P39', 'Text utilities follow their definitions',
  'Trimming, case conversion, extension extraction, suffix tests, splitting by separators and formatting of durations and sizes return, for every text and number, the result of their definition and write only inside the given buffer.',
  ['inputs'], 'all texts, separators, numbers and buffer sizes', NOT + 'string utilities are exercised with constants.',
  [C + 'util/string_util.h'], [('string helpers', C + 'util/string_util.h')], ['results'])
p('P40', 'Serving requests leaks neither memory nor descriptors',
  'Whatever requests are served and however their connections end (answered, refused, cut, reset, handed to a backend that fails, failed TLS handshakes), once the connections are closed the server holds as many file descriptors and as much memory as before; requests that repeat on a connection that stays open make it hold no more; and all of its memory is released or reachable when it ends.',
  ['histories', 'fault_sequences'], 'all histories of requests and connection ends', NOT + 'no service is ever started by it.',
  [V + 'system/service.c', V + 'stream/stream_io.c', V + 'stream/stream_http.c', V + 'handlers', C + 'formats/passwd.c', C + 'template'],
  [('release of connections and contexts', V + 'system/service.c delete_connection, close_connection'), ('handler contexts', V + 'handlers'), ('write data', V + 'stream/stream_http.c')], ['allocated bytes', 'open descriptors', 'leak report at the end'])
p('P41', 'The memory pool hands out every block once',
  'Under every history of allocations, releases and resets of the memory pool, a block that is handed out is aligned for its size, overlaps no other block in use and keeps its contents until it is released, and the reported number of free places is the number of places less the blocks in use.',
  ['histories'], 'all histories of allocations and releases for all item sizes, in one thread', NOT + 'the memory pool is compiled out of the default build and has no test.',
  [C + 'memory/memory_pool.h', C + 'memory/memory_pool.c'], [('allocation and release', C + 'memory/memory_pool.h palloc, pfree'), ('growth and shrinking', C + 'memory/memory_pool.h resize_memory_pool')], ['returned blocks', 'their contents', 'reported places'])
p('P42', 'Every configuration of the build serves the same',
  'A server that is built with polling by select instead of epoll, with the memory pool, with the debug code, or without the optional libraries (PCRE, TLS, IPv6), or that runs with several worker processes, answers all requests to the features it has, ends all connections, stops and accounts for its resources like the default build does; up to the number of descriptors that fit in its sets, for select.',
  ['inputs', 'histories', 'schedules'], 'all configurations of polling, workers, memory pool, debug code and optional libraries, with all histories of requests', NOT + 'only the default configuration is built and no service is ever started.',
  [V + 'polling/polling_select.c', V + 'system/service.c', C + 'memory/memory_pool.h'], [('polling with select', V + 'polling/polling_select.c'), ('worker processes', V + 'system/service.c start_service'), ('memory pool', C + 'memory/memory_pool.h')], ['responses', 'ends of connections and processes', 'resources'])
p('P43', 'HEAD answers as GET does, without the body',
  'The response to a HEAD request has the status and the headers that a GET for the same target with the same headers gets, and no body, for every target (files, ranges, entity tags, listings, errors, proxied locations) and position within its connection, so that the responses that follow are found where they begin.',
  ['inputs', 'configurations', 'histories'], 'all targets, headers and sequences of requests of one connection', NOT + 'no HEAD request is ever made by it.',
  [V + 'handlers', V + 'http/http_util.c'], [('file responses', V + 'handlers/handler_file.c'), ('messages and errors', V + 'http/http_util.c'), ('proxied responses', V + 'handlers/handler_proxy.c')], ['client socket'])
p('P44', 'Memory follows what was received, not what is announced or unread',
  'The memory that the server uses for a connection stays within a few megabytes and a small multiple of the bytes that the client has sent: a length that a client or a backend announces reserves nothing, and a file, a range or a proxied response of any size takes no more than that, however slowly the client reads it (or if it never does). The backend is held back meanwhile, and no byte is lost when the client goes on.',
  ['inputs', 'histories', 'schedules'], 'all announced lengths, sizes of responses and speeds of clients', NOT + 'no service is ever started by it.',
  [V + 'handlers/handler_proxy.c', V + 'handlers/handler_file.c', V + 'stream'], [('flow control of the proxy', V + 'handlers/handler_proxy.c _pending_handler_proxy, body_callback_backend'), ('blocks of files', V + 'handlers/handler_file.c _send_chunk_handler_file'), ('receive buffers', V + 'stream/stream_http.c data_handler_stream_http')], ['allocated bytes of the process', 'client socket'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
