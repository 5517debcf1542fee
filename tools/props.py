prop('P01', 'Base64 encode/decode are exact inverses', 'Encoding any byte string yields its RFC 4648 base64 text broken into 76-character lines and decoding that text returns exactly the original bytes and length. Blanks in the text do not matter, text that is not a whole number of four-character groups is rejected, and no input makes either direction touch memory outside the given string.',
     ['inputs'], 'all byte strings up to 2^28 bytes, all texts', 'tests decode and encode a dozen fixed strings; the property is about every length (line breaks, padding) and every malformed text',
     ['src/onion/codecs.c'], [('onion_base64_encode', 'src/onion/codecs.c'), ('onion_base64_decode', 'src/onion/codecs.c')])
prop('P02', 'URL percent-quoting is exact, bounded and reversible', 'Quoting any string keeps ASCII letters and digits and turns every other byte into %XX, never writes more than the size it was given, never cuts an escape in half and loses nothing when the result fits. Unquoting decodes every complete %XX escape and plus sign, leaves everything else alone, never reads or writes outside the string, and undoes quoting.',
     ['inputs'], 'all strings, all buffer sizes', 'tests quote and unquote a few fixed strings with ample buffers', ['src/onion/codecs.c'],
     [('onion_quote', 'src/onion/codecs.c'), ('onion_quote_new', 'src/onion/codecs.c'), ('onion_unquote_inplace', 'src/onion/codecs.c')])
prop('P03', 'HTML escaping neutralises every special character', 'For any string the escaped text is the input with each of < > & " \' replaced by its entity and every other byte unchanged, so no special character survives unescaped. The result is a fresh string of exactly that length; the variant that may return nothing does so only when nothing needs escaping.',
     ['inputs'], 'all strings', 'tests escape a few fixed strings', ['src/onion/codecs.c'], [('onion_html_quote', 'src/onion/codecs.c'), ('onion_html_quote_dup', 'src/onion/codecs.c')])
prop('P04', 'JSON string quoting and unquoting are exact', 'Quoting any string for JSON escapes quotes, backslashes and control characters and leaves the rest alone, and unquoting returns the original. Unquoting any text consumes exactly up to its closing quote, decodes every escape including UTF-16 surrogate pairs into UTF-8, reports malformed or unterminated text as an error, and never reads past the end; a dictionary written as JSON reads back equal.',
     ['inputs'], 'all strings and all (malformed) JSON texts', 'tests quote a handful of strings; unquoting malformed or truncated escapes is not sampled', ['src/onion/codecs.c', 'src/onion/dict.c'],
     [('onion_json_quote_add', 'src/onion/codecs.c'), ('onion_json_unquote_add', 'src/onion/codecs.c'), ('onion_dict_from_json / onion_dict_to_json', 'src/onion/dict.c')])
prop('P05', 'C string quoting is exact and bounded', 'Quoting any string as a C literal produces an opening quote, each byte as itself or as its C escape, and a closing quote, and a C compiler reads back the original bytes. With a limited buffer the result is cut between characters, still closed by a quote and terminated, and nothing is written past the buffer.',
     ['inputs'], 'all strings, all buffer sizes of at least three bytes', 'tests quote three fixed strings', ['src/onion/codecs.c'], [('onion_c_quote', 'src/onion/codecs.c'), ('onion_c_quote_new', 'src/onion/codecs.c')])
prop('P06', 'A growable block always holds exactly the bytes appended to it', 'After any sequence of appends (characters, strings, raw data, other blocks or the block itself), rewinds and clears, a block contains exactly the corresponding bytes in order and reports their number. Reading it gives those bytes followed by a NUL, growing it never loses, duplicates or corrupts a byte, and no operation touches memory outside its buffer.',
     ['histories', 'inputs'], 'all operation sequences and data, blocks up to 2^29 bytes', 'tests append a few strings and check sizes at two growth steps', ['src/onion/block.c'],
     [('onion_block_add_char', 'src/onion/block.c'), ('onion_block_add_data', 'src/onion/block.c'), ('onion_block_data', 'src/onion/block.c')], state=[dict(name='data,size,maxsize', meaning='buffer, used bytes, reserved bytes', where='src/onion/types_internal.h struct onion_block_t')])
prop('P07', 'A dict is an ordered map that never loses, invents or misplaces an entry', 'After any sequence of additions (with or without replacement), removals and lookups a dict holds exactly the entries the history implies: lookup finds a key iff it is present and gives a value stored under it, the count is exact, removal takes out exactly one entry of that key and says whether it did, other keys are never affected, traversal visits every entry once in key order (case-insensitive where asked), and lookups stay logarithmic.',
     ['histories', 'inputs'], 'all operation histories, all keys and values, duplicate keys included, dicts up to 2^30 entries', 'tests run a few linear and random insert/remove sequences over distinct keys',
     ['src/onion/dict.c'], [('onion_dict_node_add (skew, split)', 'src/onion/dict.c'), ('onion_dict_node_remove (decrease_level)', 'src/onion/dict.c'), ('onion_dict_find_node', 'src/onion/dict.c'), ('onion_dict_node_preorder', 'src/onion/dict.c')],
     state=[dict(name='AA tree', meaning='ordered by cmp, left child one level below, right child at most on the level', where='src/onion/dict.c onion_dict_node')])
prop('P08', 'What a dict owns is freed exactly once, and nothing borrowed is touched', 'Keys and values a dict copied or was given are released exactly once, when their entry is replaced, removed or the last reference to the dict goes; borrowed ones are never freed or modified, nested dicts included. A referenced dict stays intact until its last release. A deep copy has the same entries and key comparison, shares nothing with the original and outlives it.',
     ['histories', 'inputs'], 'all combinations of ownership flags over all histories of add, replace, remove, dup, hard_dup, merge and free', 'tests exercise the common flag combinations once and do not account for every allocation',
     ['src/onion/dict.c'], [('onion_dict_set_node_data / onion_dict_node_data_free', 'src/onion/dict.c'), ('onion_dict_free / onion_dict_dup / onion_dict_hard_dup', 'src/onion/dict.c')],
     state=[dict(name='flags', meaning='per entry: which of key and value the entry owns, whether the value is a dict', where='src/onion/dict.c onion_dict_node_data')])
prop('P09', 'The request parser is safe, terminating and independent of how the stream is cut', 'For every byte stream, whole or cut into reads at any places, the request parser gives the same outcome: the same request, the same refusal, or still waiting for more. It never reads or writes outside its buffers, never loops without consuming input, keeps every token within the token buffer, and answers over-long or malformed input with an error status.',
     ['inputs', 'schedules'], 'all byte streams, all cuts of the stream into reads', 'tests feed a few requests, mostly whole; malformed streams and arbitrary cuts are not sampled', ['src/onion/request_parser.c', 'src/onion/request.c'],
     [('token_read_*', 'src/onion/request_parser.c'), ('parse_POST_multipart_data / _file / _next', 'src/onion/request_parser.c'), ('onion_request_write', 'src/onion/request_parser.c')],
     state=[dict(name='parser, parser_data', meaning='current parser state and its partial token', where='src/onion/types_internal.h struct onion_request_t')])
prop('P10', 'Request line and headers reach the application exactly as sent', 'For every well-formed request the application sees the method, the percent-decoded path, the HTTP version and every header: each header once under its name, found whatever its letter case, with its value free of leading blanks and continuation lines joined by one space. No header is lost, merged or invented and an unknown method is refused, however the stream is cut and whichever newline style is used.',
     ['inputs', 'schedules'], 'all well-formed request heads, all cuts', 'tests check single headers of a few fixed requests', ['src/onion/request_parser.c', 'src/onion/request.c'],
     [('parse_headers_*', 'src/onion/request_parser.c'), ('token_read_STRING / _KEY / _until / _NEW_LINE', 'src/onion/request_parser.c'), ('onion_request_get_header', 'src/onion/request.c')])
prop('P11', 'Request bodies are delivered byte for byte within the configured limits', 'A body of announced length n reaches the application as exactly those n bytes, in memory or, for PUT, in a temporary file, however it was cut into reads and however the file system splits the writes. A body larger than the configured limit, or a PUT without a usable length, is refused before it is stored; a body of exactly the limit is accepted.',
     ['inputs', 'schedules', 'fault_sequences'], 'all bodies, lengths and limits, all cuts, short writes', 'tests send a few small bodies', ['src/onion/request_parser.c'],
     [('prepare_POST / prepare_PUT / prepare_CONTENT_LENGTH', 'src/onion/request_parser.c'), ('parse_PUT / parse_CONTENT_LENGTH', 'src/onion/request_parser.c')],
     state=[dict(name='max_post_size,max_file_size', meaning='configured limits', where='src/onion/types_internal.h struct onion_t')])
prop('P12', 'Query and form parameters are decoded exactly', 'Every name=value pair of a query string or an urlencoded form reaches the application once under its percent-decoded name with its percent-decoded value, plus signs become spaces, a name without equals sign has an empty value, and repeated names keep every value. Nothing is lost, split or invented, and no text makes the decoder touch memory outside it.',
     ['inputs', 'schedules'], 'all parameter strings, all cuts', 'tests decode a few fixed strings', ['src/onion/request_parser.c', 'src/onion/codecs.c'],
     [('onion_request_parse_query_to_dict', 'src/onion/request_parser.c'), ('token_read_URLENCODE / parse_POST_urlencode', 'src/onion/request_parser.c')])
prop('P13', 'Multipart forms deliver every field and file exactly, within the limits', 'For every multipart form each part reaches the application once under its name: plain parts with exactly their bytes, file parts with their file name and a temporary file holding exactly their bytes, including text that nearly looks like the delimiter. Field text beyond the post limit or files beyond the file limit are refused, up to the limit they are accepted, and no form makes the parser touch memory outside its buffers.',
     ['inputs', 'schedules', 'fault_sequences'], 'all forms, delimiters, contents and cuts, failing and short writes', 'tests send a few fixed forms', ['src/onion/request_parser.c'],
     [('parse_POST_multipart_data', 'src/onion/request_parser.c'), ('parse_POST_multipart_file', 'src/onion/request_parser.c'), ('parse_POST_multipart_content_type', 'src/onion/request_parser.c')],
     state=[dict(name='onion_multipart_buffer', meaning='delimiter, matched prefix, data area, remaining allowance', where='src/onion/request_parser.c')])
prop('P14', 'A request gives back everything it took, wherever it ends', 'Whatever was received and at whatever byte the connection ended or the request was refused, freeing or cleaning a request releases each block of memory exactly once, closes every descriptor it opened and deletes every temporary file. A cleaned request behaves on the next request exactly like a fresh one: nothing of the previous request is visible in it.',
     ['inputs', 'crash_points', 'histories'], 'all request streams, ended at any byte, followed by any next request on the connection', 'tests free complete requests and do not account for memory, descriptors and files', ['src/onion/request.c', 'src/onion/request_parser.c'],
     [('onion_request_free / onion_request_clean', 'src/onion/request.c'), ('onion_request_parser_data_free', 'src/onion/request_parser.c')])
prop('P15', 'Cookies are read exactly', 'Every name=value pair of the Cookie header is available under its name with exactly its value, blanks after separators ignored, empty values and equals signs inside values kept. Nothing is lost or invented, a request without cookies has none, and no cookie text makes the parser touch memory outside it.',
     ['inputs'], 'all cookie headers', 'tests read a few fixed cookies', ['src/onion/request.c'], [('onion_request_get_cookies_dict / onion_request_get_cookie', 'src/onion/request.c')])

prop('P16', 'Responses are framed correctly and nothing written is lost or duplicated', 'Whatever a handler writes, in whatever pieces and with whatever flushes, the client receives one well-formed response: headers exactly once and first, then exactly the written bytes, delimited by an exact Content-Length, by well-formed chunks (HTTP/1.1 only), or by the connection close, and no body for HEAD. Short writes lose nothing. The connection is kept only if the client wants that and the response delimits itself, and after a failed write it is closed.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of response calls, all request versions and connection headers, all short or failing socket writes', 'tests write a few small bodies to a perfect connection', ['src/onion/response.c'],
     [('onion_response_write / onion_response_flush', 'src/onion/response.c'), ('onion_response_write_headers', 'src/onion/response.c'), ('onion_response_free', 'src/onion/response.c')],
     state=[dict(name='buffer, buffer_pos, sent_bytes, flags', meaning='pending bytes and what has been announced', where='src/onion/types_internal.h struct onion_response_t')])
prop('P17', 'Response headers and cookies go out exactly as set', 'The response head holds each header the application set once, with the last value set, and one Set-Cookie line for every cookie added with exactly its name, value, expiry, path, domain and flags, plus the session cookie when the session holds data. A cookie too long to send whole is refused and reported, never cut, and no cookie overruns memory.',
     ['inputs', 'histories'], 'all sequences of header and cookie settings, all lengths', 'tests set one or two short cookies and headers', ['src/onion/response.c'],
     [('onion_response_set_header', 'src/onion/response.c'), ('onion_response_add_cookie', 'src/onion/response.c'), ('onion_response_write_headers', 'src/onion/response.c')])
prop('P18', 'WebSocket messages cross intact in both directions', 'A websocket opens only for a proper version 13 upgrade request and answers it with the accept key computed from the client key. Every message written goes out as one final unmasked frame with its opcode, its exact length in the shortest form and exactly its bytes, however the connection splits writes; every byte received in data frames, masked or not, cut anywhere, reaches the application once, in order and unmasked. Pings are answered by a pong with the same data, a close by a close with the same status, and no frame header makes the server touch memory outside its buffers or exhaust memory or stack.',
     ['inputs', 'schedules', 'fault_sequences'], 'all messages up to 2^31 bytes, all frame streams cut anywhere, short and failing reads and writes', 'tests send a few short frames over a perfect connection', ['src/onion/websocket.c'],
     [('onion_websocket_new', 'src/onion/websocket.c'), ('onion_websocket_write', 'src/onion/websocket.c'), ('onion_websocket_read', 'src/onion/websocket.c'), ('onion_websocket_read_packet_header', 'src/onion/websocket.c')],
     state=[dict(name='data_left, mask, mask_pos, opcode', meaning='rest of the current frame, its mask and position in it', where='src/onion/types_internal.h struct onion_websocket_t')])
prop('P19', 'Exported directories are never escaped', 'Whatever path is requested (dot-dot, doubled slashes, percent-encoding, symbolic links, sibling directories whose name starts the same, over-long paths), the export handler serves and lists only what really lies inside the exported directory, and the WebDAV handler reads, creates, moves, deletes or changes only what lies inside its share; everything that does lie inside is served. A WebDAV request acts on exactly the resource it names or leaves the share unchanged.',
     ['inputs', 'histories'], 'all request paths, destinations and directory contents (without concurrent changes to the directory)', 'tests request a handful of paths', ['src/onion/handlers/exportlocal.c', 'src/onion/handlers/webdav.c'],
     [('onion_handler_export_local_handler', 'src/onion/handlers/exportlocal.c'), ('onion_webdav_default_check_permissions', 'src/onion/handlers/webdav.c'), ('onion_webdav_handler and its methods', 'src/onion/handlers/webdav.c')])
prop('P20', 'Files are sent whole, ranges exactly, and unchanged files answered 304', 'A file answer carries exactly the bytes of the file, or exactly the requested byte range (clamped to the file, suffix and open ranges included) with matching Content-Length and Content-Range, however short the reads and writes; a HEAD gets the same head and no content; a matching If-None-Match gets 304 without content and any other the file. A file that cannot be opened is reported, none is left open, moving a file across file systems never loses it, and dates are written in HTTP format.',
     ['inputs', 'fault_sequences'], 'all file sizes, all range and etag headers, short and failing reads and writes', 'tests serve one small file and one range', ['src/onion/shortcuts.c'],
     [('onion_shortcut_response_file', 'src/onion/shortcuts.c'), ('onion_shortcut_rename', 'src/onion/shortcuts.c'), ('onion_shortcut_etag / onion_shortcut_date_string', 'src/onion/shortcuts.c')])
prop('P21', 'Every request reaches the right handler', 'A request is answered by the first handler, in registration order, that accepts it: url handlers apply when their text equals or their expression matches the start of the remaining path, see the rest of the path and the matched groups, and a handler that declines leaves the request as it was for the next. Path handlers strip exactly their component, internal redirects are processed as the new path with the query kept, a request nobody accepts is reported not processed, and freeing the root frees every handler and its data once.',
     ['inputs', 'histories'], 'all handler trees and request paths', 'tests use a few fixed routes', ['src/onion/handler.c', 'src/onion/url.c', 'src/onion/handlers/path.c', 'src/onion/handlers/static.c', 'src/onion/shortcuts.c'],
     [('onion_handler_handle / onion_handler_add / onion_handler_free', 'src/onion/handler.c'), ('onion_url_handler', 'src/onion/url.c'), ('onion_handler_path_handler', 'src/onion/handlers/path.c'), ('onion_shortcut_internal_redirect', 'src/onion/shortcuts.c')])
prop('P22', 'Every complete request gets exactly one answer, errors the right one', 'Every complete request is handled once and gets one response. If no handler takes it, or one reports forbidden, internal error or not implemented, the client gets that status (404, 403, 500, 501) from the error handler, which is told what failed, and never mixed into a response already begun. Malformed, oversized or ended input closes the connection without calling a handler. The connection stays open iff client and response allow it, and the next request on it sees nothing of the previous one.',
     ['inputs', 'histories', 'fault_sequences'], 'all request streams of requests sent one after the other, all handler outcomes', 'tests check a few fixed outcomes of one request each', ['src/onion/request.c', 'src/onion/onion.c', 'src/onion/http.c', 'src/onion/request_parser.c'],
     [('onion_request_process', 'src/onion/request.c'), ('onion_default_error', 'src/onion/onion.c'), ('onion_http_read_ready', 'src/onion/http.c'), ('onion_request_clean', 'src/onion/request.c')])
prop('P23', 'Sessions belong to whoever holds their id, persist, and end when they should', 'A sessionid cookie naming a live session gives exactly that session with everything stored in it so far, in the memory, sqlite3 and redis stores alike. Any other cookie, an unknown or an ended id is never taken for one: the client then gets a new empty session under a fresh random 32-character id. The session cookie is sent iff the session holds data; an emptied or freed session is removed, its id is dead from then on, and nothing leaks.',
     ['inputs', 'histories'], 'all cookie headers, all histories of requests over each store', 'tests walk through one or two session lifetimes', ['src/onion/request.c', 'src/onion/sessions.c', 'src/onion/sessions_mem.c', 'src/onion/sessions_sqlite3.c', 'src/onion/sessions_redis.c', 'src/onion/response.c'],
     [('onion_request_guess_session_id', 'src/onion/request.c'), ('onion_request_get_session_dict / onion_request_session_free', 'src/onion/request.c'), ('onion_sessions_create / get / save / remove', 'src/onion/sessions.c'), ('onion_sessions_mem_*', 'src/onion/sessions_mem.c'), ('onion_sessions_sqlite3_*', 'src/onion/sessions_sqlite3.c'), ('onion_sessions_redis_*', 'src/onion/sessions_redis.c')],
     state=[dict(name='session, session_id', meaning='the session of the request, both set or neither', where='src/onion/types_internal.h struct onion_request_t')])
prop('P24', 'Handlers behind a login run only for authenticated users', 'The handler inside a PAM login handler gets a request only if the session of the request logged in before or PAM accepts, for the configured service, exactly the user name and password sent as Basic credentials, split at the first colon; the session then remembers the user and the answer inside is returned. Every other request, whatever its Authorization header, gets 401 with the configured realm, runs nothing inside, marks no session, leaves no PAM handle open, and touches no memory outside its buffers.',
     ['inputs', 'histories', 'fault_sequences'], 'all Authorization headers, sessions and outcomes of each step of PAM', 'no test covers the login handler', ['src/onion/handlers/auth_pam.c'],
     [('onion_handler_auth_pam_handler / authorize', 'src/onion/handlers/auth_pam.c'), ('onion_handler_auth_pam / onion_handler_auth_pam_delete', 'src/onion/handlers/auth_pam.c')],
     state=[dict(name='pam_logged_in, username', meaning='who logged in, in the session', where='src/onion/handlers/auth_pam.c')])
prop('N01', 'Requests served concurrently do not interfere', 'With several worker threads every response is one that serving the requests in some order would give; shared dicts, sessions, handler trees and counters are never corrupted.',
     ['schedules'], 'all thread interleavings', 'tests run a few threads without controlling the schedule', ['src/onion/poller.c', 'src/onion/onion.c', 'src/onion/dict.c'], [('onion_poller_poll', 'src/onion/poller.c'), ('refcount and mutex of onion_dict', 'src/onion/dict.c')],
     claim=False, reason='The verifier here proves sequential contracts over LLVM IR; it has no permission or rely/guarantee logic for shared memory, and no installed deductive verifier for C offers one (frama-c is installed without WP). Locking is only covered where it is a per-call contract (dict_free reference count, sqlite3 session lock).')
prop('N02', 'Ready connections are served and idle ones closed at their timeout', 'The pollers eventually serve each ready connection, close a connection within its timeout, and stop listening when asked.',
     ['schedules', 'fault_sequences'], 'all event orders', 'tests wait on real time', ['src/onion/poller.c', 'src/onion/listen_point.c'], [('onion_poller_poll', 'src/onion/poller.c')],
     claim=False, reason='Liveness against the kernel (epoll, timers) and real time: partial-correctness contracts cannot state it without a model of the kernel scheduler, which would be proving a model.')
prop('N03', 'HTTPS connections are confidential and authenticated', 'Data of an HTTPS listen point crosses the network only inside TLS with the configured certificate.',
     ['inputs'], 'all connections', 'tests make one TLS connection', ['src/onion/https.c'], [('onion_https_new / onion_https_read / onion_https_write', 'src/onion/https.c')],
     claim=False, reason='Provided by GnuTLS; the code of this repository only forwards calls, and no contract over it can express the cryptographic guarantee.')
