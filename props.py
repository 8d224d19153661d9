"""The properties: what they say, where they are anchored, and which harness
entries (with which bounds) decide them.  gen_manifest.py writes
properties.jsonl and MANIFEST.json from this file."""

IN = ['inputs']
SERVE = dict(name='one connection is read, routed and answered', where='src/server.rs: Octane::serve, Octane::send')
READ = dict(name='head and body are read from the stream', where='octane_http/src/http1x: RawRequest')
PARSE = dict(name='request line and headers are parsed', where='src/request.rs: RequestLine::parse, Header::parse, Headers::parse, Request::parse')
PATHS = dict(name='paths are split into segments', where='src/path.rs: PathBuf')
TREE = dict(name='patterns are kept in a tree and matched', where='src/path.rs: PathNode')
ROUTER = dict(name='matching handlers are collected, sorted and run', where='src/router.rs: Router::run, Router::append')
RESP = dict(name='status line, headers and body are put together', where='src/responder.rs: Response')

PROPS = {}
def prop(id, title, statement, over, text, why, files, mech, quick, thorough, covers, bounds, outside, assumptions=(), state=(), observe=('bytes written to the connection', 'what handlers are called with'), **kw):
    PROPS[id] = dict(level='model_checking', title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     quick=quick, thorough=thorough, covers=covers, bounds=bounds, outside=outside, assumptions=list(assumptions), state=list(state), observe=list(observe), **kw)

prop('C01', 'Every connection gets exactly one well-formed response',
 'Whatever bytes a client sends, serving its connection neither panics nor hangs and, unless writing fails, writes exactly one HTTP response: a status line with a code and its reason phrase, header lines without stray control characters, an empty line, and a body of exactly the announced Content-Length. '
 'Requests that are not HTTP (no complete head, not UTF-8, wrong number of words, a malformed header, a path above the root, HTTP/1.1 without Host, a body shorter than announced) are answered with 400, never by a handler. '
 'Nothing follows the response.',
 IN, 'all byte sequences a client can send before it stops sending',
 'The tests send a handful of well-formed requests (and none in pieces of arbitrary bytes); a panic or a second response needs bytes nobody thought of.',
 ['src/server.rs', 'src/request.rs', 'octane_http/src/http1x/mod.rs', 'octane_http/src/http1x/raw_request.rs', 'src/responder.rs', 'src/path.rs'],
 [SERVE, READ, PARSE, RESP],
 ['c01_bytes:6', 'c01_head:6', 'c01_window:2:0', 'c01_window:2:1', 'c01_window:2:2', 'c01_window:2:3', 'c01_insert:2:0', 'c01_insert:2:1', 'c01_insert:2:2', 'c01_insert:2:3', 'c01_two:2', 'c01_cut:0', 'c01_cut:1', 'c01_cut:3', 'c01_length:25', 'c01_numbers:21:1', 'c01_size', 'c01_known:5'],
 ['c01_bytes:10', 'c01_head:7', 'c01_window:3:0', 'c01_window:3:1', 'c01_window:3:2', 'c01_window:3:3', 'c01_insert:2:0', 'c01_insert:3:1', 'c01_insert:3:2', 'c01_insert:3:3', 'c01_two:0', 'c01_two:1', 'c01_two:2', 'c01_two:3', 'c01_cut:0', 'c01_cut:1', 'c01_cut:2', 'c01_cut:3', 'c01_length:25', 'c01_numbers:21:2', 'c01_size', 'c01_known:9'],
 ['served', 'rejected'],
 'any input of up to 6 (thorough 10) bytes; any head of up to 6 (7) bytes before the empty line; four typical requests with any 2 (3) consecutive bytes replaced or inserted at any place, two single bytes replaced at any two places, or cut off anywhere; Content-Length values of 1 to 25 digits and other numbers in headers of 1 to 21 digits, the first or last (any two adjacent) of them arbitrary; heads and bodies around the buffer sizes up to 70 kB; 46 well-known header fields with 67 well-known values or any word of 2 characters and number of 5 (9) digits; 82 well-known paths',
 'longer runs of arbitrary bytes; response headers with line breaks set by handlers; handlers that panic')

prop('C02', 'Responses do not depend on how the bytes arrive or leave',
 'For every way of splitting the bytes of a request over reads, with any pauses in between, the handlers are shown the same request and the client gets the same response as when all bytes arrive at once. '
 'For every way the transport accepts the response in pieces, with any pauses, the same bytes are delivered, in order and complete.',
 ['schedules', 'inputs'], 'all segmentations of a request and of its response, and all pauses',
 'The tests write each request with one call to a local socket, so one segmentation is ever seen; the separator split over two reads, or a partial write, is a matter of network timing.',
 ['src/server.rs', 'octane_http/src/http1x/mod.rs', 'octane_http/src/http1x/raw_request.rs'],
 [READ, SERVE],
 ['c02_split:0:0', 'c02_split:1:0', 'c02_split:2:0', 'c02_split:1:1', 'c02_trickle', 'c02_window:2:0', 'c02_edge', 'c02_big', 'c02_write:0:0', 'c02_write_big'],
 ['c02_split:0:0', 'c02_split:1:0', 'c02_split:2:0', 'c02_split:0:1', 'c02_split:1:1', 'c02_split:2:1', 'c02_trickle', 'c02_window:2:0', 'c02_window:2:1', 'c02_window:3:1', 'c02_edge', 'c02_big', 'c02_write:0:0', 'c02_write:1:0', 'c02_write:0:1', 'c02_write:1:1', 'c02_write_big'],
 ['served', 'rejected', 'body'],
 'three requests split at every two places, with pauses before any read; one byte per read; splits inside any 2 (thorough 3) arbitrary bytes; heads that end at any of 16 places around three multiples of the buffer size with bodies of four sizes, bodies up to 70 kB, responses up to 1 MB; responses accepted in pieces with two symbolic boundaries and pauses',
 'more than two arbitrary split points at once except one-byte reads; pipelined requests')

prop('C03', 'The body handlers see is what Content-Length announces',
 'A handler is shown as body exactly the first Content-Length bytes after the head, whatever they contain and whatever follows, and an empty body when Content-Length is absent or not a decimal number that fits the machine. '
 'If the client stops sending before that many bytes arrived, the answer is 400 and no handler runs. '
 'An announced length costs no memory before the bytes arrive.',
 IN, 'all Content-Length values and all body contents',
 'The tests send bodies of one or two fixed lengths; framing errors show at other lengths, at buffer boundaries or with lengths that overflow.',
 ['octane_http/src/http1x/mod.rs', 'octane_http/src/http1x/raw_request.rs', 'src/request.rs'],
 [READ, dict(name='body taken by length', where='src/request.rs: Request::parse / octane_http RawRequest::new')],
 ['c03_digits:6', 'c03_value:4', 'c03_huge', 'c03_content:24', 'c03_sizes', 'c03_known:5'],
 ['c03_digits:6', 'c03_digits:12', 'c03_value:5', 'c03_huge', 'c03_content:200', 'c03_sizes', 'c03_known:9'],
 ['complete', 'short', 'not a number'],
 'any two digits with bodies of up to 6 (thorough 12) bytes; any value of up to 4 (5) bytes; any 24 (200) body bytes; lengths around 2^16, 2^31, 2^32, 2^63 and 2^64; bodies around the buffer sizes up to 1 MB; bodies with every method and version; 46 well-known header fields with 67 well-known values or any word of 2 characters and number of 5 (9) digits',
 'chunked transfer coding (the server does not implement it)')

prop('C04', 'Request lines are understood as sent or refused',
 'A request line of three words separated by single spaces, whose third starts with HTTP/, is shown to handlers with its method, path, query and version as sent; with any other request line the answer is 400 and no handler runs. '
 'A known method (GET, POST, PUT, DELETE, HEAD, PATCH, OPTIONS, CONNECT, TRACE, in upper case) reaches the handlers as that method, any other gets 501; HTTP/1.1 without a Host header gets 400. '
 'Versions 1.0, 1.1 and 2.0 are told apart.',
 IN, 'all request lines',
 'The tests try a dozen request lines; method, version and separator confusion needs other spellings.',
 ['src/request.rs', 'octane_http/src/http1x/mod.rs', 'octane_http/src/lib.rs', 'src/server.rs'],
 [PARSE, dict(name='versions and their names', where='octane_http/src/lib.rs: HttpVersion'), SERVE],
 ['c04_window:3:0', 'c04_window:3:1', 'c04_window:2:2', 'c04_insert:3:2', 'c04_method:5', 'c04_version:4', 'c04_combine', 'c04_keepalive:2', 'c04_long'],
 ['c04_window:3:0', 'c04_window:3:1', 'c04_window:3:2', 'c04_insert:3:0', 'c04_insert:3:1', 'c04_insert:3:2', 'c04_method:7', 'c04_version:5', 'c04_combine', 'c04_keepalive:3', 'c04_long'],
 ['served', 'malformed', 'no host', 'unknown method'],
 'request lines with any 2 or 3 consecutive bytes replaced or inserted at any place; any method of up to 5 (thorough 7) characters and any version of up to 4 (thorough 5) bytes; all combinations of the methods, versions and spellings listed; targets of up to 9 kB',
 'longer runs of arbitrary bytes; what is done with a version other than 1.0, 1.1 and 2.0')

prop('C05', 'Handlers see the header fields that were sent',
 'Every header line reaches the handlers once, in order, with its name as sent and its value without surrounding blanks; looking a field up by its lower-case name gives all its values joined with ", " in order, whatever the case it was sent in and however many there are. '
 'A header line without a colon, with an empty name, or with characters in the name that HTTP does not allow in a token, or with a control character in the value, is answered with 400 and reaches no handler.',
 IN, 'all header blocks',
 'The tests parse a few fixed headers; a lost duplicate, a name compared with case or a control character let through needs particular headers.',
 ['src/request.rs', 'octane_http/src/http1x/mod.rs'],
 [PARSE],
 ['c05_window:2:0', 'c05_window:2:1', 'c05_window:2:2', 'c05_insert:2:1', 'c05_name:4', 'c05_value:3', 'c05_repeat:3', 'c05_many', 'c05_long', 'c05_word:9', 'c05_known:5', 'c05_pairs'],
 ['c05_window:3:0', 'c05_window:3:1', 'c05_window:3:2', 'c05_insert:2:0', 'c05_insert:2:1', 'c05_insert:3:1', 'c05_name:5', 'c05_value:4', 'c05_repeat:4', 'c05_many', 'c05_long', 'c05_word:14', 'c05_known:9', 'c05_pairs'],
 ['malformed', 'served'],
 'three header blocks with any 2 (thorough 3, ASCII) consecutive bytes replaced or inserted at any place; any name of up to 4 (5) ASCII characters; any value of up to 3 (4) bytes; up to 4 fields whose names differ in a letter or in case, in any order; up to 1101 fields; names and values of up to 64 kB; 46 well-known header fields with 67 well-known values or any word of 2 characters and number of 5 (9) digits; a name and a value that are any words (letters, digits, "-", "_") with up to 9 (14) and up to 6 characters or the other way round; pairs of well-known fields of which one may name the other',
 'longer runs of arbitrary bytes; obsolete line folding')

prop('C06', 'Request paths are normalised and cannot leave the root',
 'The path handlers see has no empty segment, no "." and no "..", each resolved as in a file system, so that as a file path it stays below whatever directory it is joined to; a request whose path would climb above the root is answered with 400. '
 'Concatenating, subtracting, comparing prefixes, displaying and matching of paths agree with the lists of their segments.',
 IN, 'all request paths and pairs of paths',
 'The tests try five paths; traversal bugs need particular mixtures of dots and slashes.',
 ['src/path.rs', 'src/request.rs'], [PATHS, PARSE],
 ['c06_dots:7', 'c06_bytes:3', 'c06_window:3', 'c06_deep', 'c06_long', 'c06_algebra:4:3', 'c06_word:7', 'c06_pieces:3', 'c06_known'],
 ['c06_dots:11', 'c06_bytes:5', 'c06_window:3', 'c06_window:4', 'c06_deep', 'c06_long', 'c06_algebra:5:4', 'c06_algebra:4:5', 'c06_word:10', 'c06_pieces:4', 'c06_known'],
 ['accepted', 'rejected', 'match', 'prefix'],
 'any path of up to 7 (thorough 11) characters out of slash, dot and a letter; any path of up to 3 (5) bytes; any 3 (4) ASCII characters replaced in a longer path; up to 1100 segments down and 1101 up, segments of up to 5000 characters; pairs of 82 well-known paths; paths of any two words of up to 7 (10) and up to 6 characters joined by slashes, dots, "%" or ":"; 3 (4) of 16 pieces that look like dots and slashes in some encoding; pairs of paths of up to 4 and 3 (5 and 4) characters out of slash, colon and two letters',
 'percent-encoded dots and slashes (paths are not decoded)')

prop('C07', 'A handler runs exactly for the requests its route describes',
 'A handler registered for a method and a pattern runs for a request if and only if the methods are equal (or it was registered for all methods) and the pattern has as many segments as the path, each equal to that of the path or a variable (":name"). '
 'It is given the variables of its own pattern, each with the text of the segment in its place, also when several patterns overlap. '
 'When none matches the answer is 404.',
 ['inputs', 'configurations'], 'all sets of routes and all requests',
 'The tests register a few routes and request a few paths; wrong matches need overlapping patterns and particular paths.',
 ['src/path.rs', 'src/router.rs', 'src/request.rs'], [TREE, ROUTER],
 ['c07_pattern:5:4', 'c07_pattern:4:5', 'c07_overlap:6', 'c07_methods', 'c07_text:3', 'c07_deep', 'c07_many', 'c07_long', 'c07_word:7', 'c07_known'],
 ['c07_pattern:5:4', 'c07_pattern:4:5', 'c07_pattern:5:5', 'c07_pattern:6:5', 'c07_overlap:8', 'c07_methods', 'c07_text:4', 'c07_deep', 'c07_many', 'c07_long', 'c07_word:11', 'c07_known'],
 ['match', 'no match', 'invalid pattern'],
 'any pattern of 5 and path of 4 and the other way round (thorough 5 and 5, 6 and 5) characters out of slash, colon, dot and two letters; 14 overlapping patterns and any path of up to 6 (8) characters; every method against every kind of registration; variable texts of any 3 (4) bytes; up to 1100 segments; up to 1100 patterns; segments of up to 4096 characters; 82 well-known paths as pattern and path; segments that are any words of up to 7 (11) characters',
 'other sets of patterns')

prop('C08', 'Matching handlers run in order of registration until one stops',
 'All handlers that match a request run one after another in the order in which they were registered, whatever way each was registered (for a method, for all methods, by path or for every path), each once. '
 'A handler that returns Stop is the last one to run; the response the ones that ran made up is what the client gets.',
 ['programs', 'inputs'], 'all sequences of registrations and all decisions to stop',
 'The tests register two or three handlers; a wrong order needs a certain mixture of kinds of registrations.',
 ['src/router.rs', 'src/server.rs', 'src/path.rs'], [ROUTER, TREE],
 ['c08_order:4', 'c08_matching:6', 'c08_silent:4', 'c08_long'],
 ['c08_order:5', 'c08_matching:7', 'c08_silent:5', 'c08_long'],
 ['ran', 'stopped', 'none', 'answered', 'silent'],
 'any sequence of up to 4 (thorough 5) registrations out of 8 kinds, each handler stopping or not; any sequence of 6 (7) matching registrations; any sequence of 4 (5) matching handlers that each answer or not and stop or not; up to 1100 registrations of fixed mixtures',
 'handlers that panic or block')

prop('C09', 'Mounting a router equals registering its handlers in its place',
 'Mounting a router on a server has the same effect on every request as registering the handlers of the router on the server at that point, in their order: the same handlers run, in the same order, with the same variables, and stop in the same way. '
 'It does not matter whether the router was filled before or after handlers were registered on the server.',
 ['programs', 'inputs'], 'all ways to distribute registrations over a server and routers, and all requests',
 'One test mounts one router; order across several routers and the server needs particular interleavings of registration.',
 ['src/router.rs', 'src/server.rs', 'src/path.rs'], [ROUTER, dict(name='registrations are numbered', where='src/router.rs: Route indices')],
 ['c09_places', 'c09_inside:4', 'c09_large', 'c09_patterns:5', 'c09_methods', 'c09_routers'],
 ['c09_places', 'c09_inside:4', 'c09_inside:5', 'c09_large', 'c09_patterns:6', 'c09_methods', 'c09_routers'],
 ['ran', 'stopped', 'patterns', 'methods'],
 'one handler of any kind before, in, between, in and after two routers, any stopping; up to 4 (thorough 5) handlers of any of 8 kinds in routers; up to 1200 handlers of fixed mixtures and up to 270 routers; handlers for every method with the server having any of them before; 7 overlapping patterns distributed in 8 ways and any path of up to 5 (6) characters',
 'mounting routers on routers (there is no way to)')

prop('C10', 'Unanswered requests get the standard error page and nothing else',
 'A request for which no handler sent a body is answered with 404, a malformed one with 400 and one with an unknown method with 501, each with the reason phrase of its status, the standard HTML page as body and only the headers Content-Type, Content-Length and Date. '
 'Headers, status, cookies or redirects prepared by handlers that did not send never appear in an error page, and a response that was sent is delivered even if its body is empty.',
 IN, 'all requests and all preparations of a response',
 'The tests look at one unknown path; leaks need a handler that prepares and does not send.',
 ['src/server.rs', 'src/error.rs', 'src/responder.rs'], [SERVE, dict(name='error pages', where='src/error.rs')],
 ['c10_unsent:5', 'c10_empty', 'c10_methods', 'c10_unknown:4', 'c10_rejected', 'c10_word:9', 'c10_known:5'],
 ['c10_unsent:12', 'c10_empty', 'c10_methods', 'c10_unknown:5', 'c10_rejected', 'c10_word:13', 'c10_known:9'],
 ['unsent', 'empty', 'methods', 'unknown path', 'rejected'],
 'any two of 8 preparations by two handlers with any header value of 5 (thorough 12) characters and any of 14 statuses, the last stopping or not; every method and version with 7 paths and silent handlers or none; bodies of 0 to 2 bytes with any preparation before or after; any path of 4 (5) bytes; 46 well-known header fields with 67 well-known values or any word of 2 characters and number of 5 (9) digits; 82 well-known paths; paths of any words of up to 9 (13) characters; nine kinds of rejected requests',
 'the text of the page')

prop('C11', 'The response on the wire is the one the handlers described',
 'The client receives the status set last with its reason phrase, each header set by a handler exactly once with the value set last, the default Content-Type text/html (with the charset, if one was given) when none was set before sending, a Date, and the bytes sent last as the body with their length as Content-Length. '
 'Helpers (content type, redirect, attachment, charset, version) do this and nothing else, before or after sending.',
 ['inputs', 'programs'], 'all header names and values without line breaks, all bodies, and all sequences of calls on a response',
 'The tests compare three fixed responses; the interplay of calls and the lengths of bodies are open.',
 ['src/responder.rs', 'src/server.rs', 'octane_http/src/lib.rs'], [RESP, SERVE],
 ['c11_headers:3:1', 'c11_headers:2:2', 'c11_value:6', 'c11_body:4', 'c11_sizes', 'c11_twice:3', 'c11_helpers:5', 'c11_many', 'c11_long', 'c11_fields', 'c11_word:10', 'c11_known:5', 'c11_program:3'],
 ['c11_headers:3:1', 'c11_headers:2:2', 'c11_value:8', 'c11_body:5', 'c11_sizes', 'c11_twice:4', 'c11_helpers:12', 'c11_many', 'c11_long', 'c11_fields', 'c11_word:14', 'c11_known:9', 'c11_program:4'],
 ['replaced', 'two', 'value', 'body', 'twice', 'helpers'],
 'two headers with any token names of 3 and values of up to 1 character, or 2 and 2; any value of up to 6 (thorough 8) bytes of UTF-8; any body of up to 4 (5) bytes; bodies of sizes up to 1 MB with any byte at the ends and in the middle; any two of 8 helpers before, between and after sending; up to 1100 headers; names, values and texts for helpers of 50 lengths up to 70 kB; 68 well-known header fields with 67 values; any three (four) of 20 steps that handlers can do with a response, in one or two handlers; requests with any of 46 well-known header fields with 67 well-known values or any word of 2 characters and number of 5 (9) digits; a name and a value that are any words of up to 10 (14) characters',
 'header names or values with line breaks; two headers whose names differ only in case')

prop('C12', 'Handlers see the cookies of the Cookie header',
 'Every name=value pair of the Cookie header reaches the handlers as a cookie with that name and value, in order, and nothing else does; a malformed part (no "=", an empty name) is skipped and does not fail the request. '
 'Every handler of the request sees the same cookies.',
 IN, 'all Cookie headers',
 'No test sends a malformed cookie; one bad part used to lose the request.',
 ['src/cookie.rs', 'src/request.rs', 'src/server.rs'], [dict(name='cookies are parsed', where='src/cookie.rs: Cookies::parse')],
 ['c12_window:4', 'c12_chars:8', 'c12_value:6', 'c12_many', 'c12_long', 'c12_none', 'c12_word:16', 'c12_known'],
 ['c12_window:6', 'c12_chars:10', 'c12_value:8', 'c12_many', 'c12_long', 'c12_none', 'c12_word:40', 'c12_known'],
 ['none', 'one', 'several'],
 'a list of five cookies with any 4 (thorough 6) characters replaced; any 8 (10) characters out of "=", ";", space, quote and a letter; any value of 6 (8) visible characters; up to 1101 cookies; names and values of up to 9000 characters; names and values that are any words of up to 16 (40) characters; pairs of 64 well-known names and values',
 'characters outside visible ASCII; quotes are removed and attributes after ";" dropped as the cookie crate does')

prop('C13', 'Every cookie a handler sets reaches the client',
 'For every cookie that handlers add to a response the client gets one Set-Cookie line of its own with the name, the value and the attributes of the cookie, in the order they were added, also when names repeat. '
 'Cookies change nothing else in the response.',
 ['inputs', 'programs'], 'all lists of cookies with all attributes',
 'No test looks at a response with cookies; the lines used to be broken with more than one.',
 ['src/responder.rs', 'src/cookie.rs'], [RESP],
 ['c13_one:1:2', 'c13_one:2:2', 'c13_list:3:1', 'c13_many', 'c13_long', 'c13_attributes', 'c13_word:16', 'c13_known', 'c13_program:3'],
 ['c13_one:2:3', 'c13_list:3:2', 'c13_list:4:1', 'c13_many', 'c13_long', 'c13_attributes', 'c13_word:40', 'c13_known', 'c13_program:4'],
 ['none', 'one', 'several'],
 'one cookie with any name of 2 and value of up to 2 (thorough 3) characters and any of 7 attributes; up to 3 cookies with any names of 1 (2) and values of up to 1 (2) characters, or 4 of 1; up to 1100 cookies; names, values and paths of 50 lengths up to 70 kB; 1152 combinations of attributes; cookies among any other steps, three (four) of 20 in all; names and values that are any words of up to 16 (40) characters; pairs of 64 well-known names and values',
 'characters a cookie may not have')

prop('C14', 'Queries decode into the names and values that were sent',
 'The query of a request is what follows the first "?" and is no part of the path; it decodes into exactly the names sent, split at "&" and at the first "=" of each field, each with the value last sent for it, a field without "=" having an empty value and a field with an empty name being ignored. '
 'In names and values every complete percent escape is decoded, the bytes read as UTF-8; anything else stands for itself.',
 IN, 'all queries',
 'The tests decode five fixed queries; escapes at the end, broken UTF-8 and a second "?" are not among them.',
 ['src/query.rs', 'src/request.rs'], [dict(name='queries are split and unescaped', where='src/query.rs: parse_query, unescape_hex')],
 ['c14_chars:7', 'c14_bytes:3', 'c14_window:2', 'c14_escape:0', 'c14_escape:1', 'c14_utf8:2', 'c14_wide:3', 'c14_many', 'c14_long', 'c14_word:7', 'c14_known'],
 ['c14_chars:9', 'c14_bytes:4', 'c14_bytes:5', 'c14_window:3', 'c14_escape:0', 'c14_escape:1', 'c14_utf8:3', 'c14_utf8:4', 'c14_wide:4', 'c14_many', 'c14_long', 'c14_word:10', 'c14_known'],
 ['empty', 'one', 'several'],
 'any query of up to 7 (thorough 9) characters out of "&", "=", "%", "?" and a letter; any 3 (5) bytes; any 2 (3) visible characters replaced in a longer query; all escapes; any 3 (4) bytes after a percent sign; sequences of 2 (4) escaped bytes of every class of UTF-8; up to 1101 fields, names and values of up to 9000 characters; names and values that are any words of up to 7 (10) characters; pairs of 64 well-known names and values',
 '"+" stands for itself (the server does not decode it)')

prop('C15', 'Extended queries build the arrays and objects that were sent',
 'In an extended query the fields name[]=v collect under name into an array in order, the fields name[key]=v into an object with the last value for each key, and a plain field is a string that replaces what was there. '
 'A bracketed field that does not fit what its name already holds is ignored; no other names appear, and values are decoded like those of plain queries.',
 IN, 'all queries',
 'The tests decode three fixed queries; what a field does depends on the ones before it.',
 ['src/query.rs', 'src/request.rs'], [dict(name='bracketed names', where='src/query.rs: parse_extended_query')],
 ['c15_chars:8', 'c15_window:2:0', 'c15_window:2:1', 'c15_fields:4', 'c15_bytes:3', 'c15_many', 'c15_long', 'c15_word:6', 'c15_known'],
 ['c15_chars:10', 'c15_window:3:0', 'c15_window:3:1', 'c15_fields:5', 'c15_bytes:4', 'c15_many', 'c15_long', 'c15_word:9', 'c15_known'],
 ['string', 'array', 'object'],
 'any query of up to 8 (thorough 10) characters out of "[", "]", "=", "&" and a letter; any 2 (3) visible characters replaced in two longer queries; any sequence of 4 (5) of 12 kinds of fields; any 3 (4) bytes inside and outside the brackets and in the value; up to 1100 fields; names, keys and values of up to 4096 characters; names, keys and values that are any words of up to 6 (9) characters; pairs of 64 well-known names, keys and values',
 'escapes inside bracketed names stay as they are')

prop('C16', 'The Date header is the current time in HTTP format',
 'Every response carries a Date header that is the moment the response was made as "Day, DD Mon YYYY HH:MM:SS GMT", with two digits for the day and the time, the right weekday, and the calendar of leap years.',
 IN, 'all moments from 1970 to the end of 9999',
 'The tests format five moments; leap years, month ends and centuries have their own arithmetic, and "Sep" was spelled wrong.',
 ['src/time.rs', 'src/responder.rs'], [dict(name='the date is computed from the clock', where='src/time.rs: Time::time, Time::format')],
 ['c16_days:1970:2200', 'c16_centuries', 'c16_clock', 'c16_sent', 'c16_twice'],
 ['c16_days:1970:2999', 'c16_days:3000:4999', 'c16_days:5000:6999', 'c16_days:7000:9999', 'c16_clock', 'c16_sent', 'c16_twice'],
 ['date', 'sent', 'twice'],
 'every day of 1970-2200 and of the years around every turn of a century up to 9901 (thorough: every day up to 31 December 9999), at midnight and at any time with two-digit hour, minute and second; every second of every day of 1970, 1999, 2000, 2024, 2100 and 9999; two responses at any two moments of a day',
 'times before 1970 and after 9999',
 assumptions=['the clock is what clock_gettime returns; the harness makes it return any moment'], domain=True)

prop('C17', 'Sending a file delivers the file, or tells that it cannot',
 'Sending a file succeeds exactly if the path names a regular file that can be opened and examined; then the client gets its whole content as the body, its size as Content-Length and the media type of its extension, in whatever pieces the file is read, and the status and headers set before are kept. '
 'Otherwise the handler is told and the response stays as it was. '
 'The file is opened for reading only and closed in the end; if reading it fails half way, serving ends with an error and only bytes of the file were sent.',
 ['inputs', 'fault_sequences'], 'all contents, sizes, ways of reading and failures of a file',
 'The tests never send a file; the body used to be empty and had no length.',
 ['src/file_handler.rs', 'src/util.rs', 'src/responder.rs', 'src/server.rs'], [dict(name='files are opened and examined', where='src/file_handler.rs: FileHandler::handle_file'), dict(name='files are read as bodies', where='src/util.rs: AsyncReader'), RESP],
 ['c17_content:9', 'c17_sizes', 'c17_huge', 'c17_broken:9', 'c17_refused', 'c17_name:5:0', 'c17_name:4:1', 'c17_name:3:2', 'c17_nul', 'c17_word:16', 'c17_known', 'c17_links', 'c17_history:2'],
 ['c17_content:12', 'c17_sizes', 'c17_huge', 'c17_broken:30', 'c17_refused', 'c17_name:6:0', 'c17_name:6:1', 'c17_name:4:2', 'c17_nul', 'c17_word:40', 'c17_known', 'c17_links', 'c17_history:3'],
 ['sent', 'refused', 'broken', 'huge'],
 'any content of up to 9 (thorough 12) bytes read in any pieces; 18 sizes up to 1 MB with any byte at the ends or in the middle, four ways of reading and two of writing; announced sizes around 2^16, 2^31, 2^32, 2^53 and 2^63; reading or writing failing after up to 10 (31) steps; 8 kinds of failures; names of any 5 (6) visible characters; names that are any words of up to 16 (40) characters; links, nine modes and five ages of files; two (three) requests for four paths between which files appear, change and disappear; each alone, after or before another body, with a status, headers or a type set; 56 well-known file names and 8 kinds of content',
 'files that change while they are sent',
 assumptions=['open, statx, read, lseek and close are those of the harness (one file with any content and any failures), in the symbolic and the native run'])

prop('C18', 'File names get the media type of their extension',
 'A file name sent as an attachment gets the media type of the text after its last dot, whatever the case of the letters, and text/plain when there is no extension or an unknown one; the Content-Disposition carries the file name, quoted. '
 'The types are those registered for the extensions.',
 IN, 'all file names',
 'No test looks at media types; one was misspelled.',
 ['src/file_handler.rs', 'src/responder.rs'], [dict(name='extension to media type', where='src/file_handler.rs: FileHandler::mime_type, get_extension')],
 ['c18_extension:4', 'c18_table', 'c18_case', 'c18_name:3:0', 'c18_name:3:1', 'c18_name:3:2', 'c18_name:3:3', 'c18_word:12', 'c18_known', 'c18_long'],
 ['c18_extension:6', 'c18_table', 'c18_case', 'c18_name:4:0', 'c18_name:4:1', 'c18_name:4:2', 'c18_name:4:3', 'c18_word:30', 'c18_known', 'c18_long'],
 ['default', 'known'],
 'any extension of up to 4 (thorough 6) visible characters; every extension of the table in any case; names with 3 (4) arbitrary visible characters in four places; names and extensions that are any words of up to 12 (30) characters; names and extensions of 50 lengths up to 70 kB; 55 well-known file names',
 'characters outside visible ASCII; control characters in file names')

prop('C19', 'Every status has its registered code and reason phrase',
 'Each of the statuses a handler can set is sent with its registered three-digit code and the matching reason phrase, no two share a code, and a custom status is sent with the code and phrase given.',
 ['configurations'], 'all statuses',
 'The tests look at three statuses.',
 ['octane_http/src/lib.rs', 'octane_macros/src/status.rs', 'src/responder.rs'], [dict(name='table of statuses', where='octane_http/src/lib.rs: StatusCode')],
 ['c19_table', 'c19_other:5', 'c19_long'], ['c19_table', 'c19_other:6', 'c19_long'], ['table', 'other', 'long'],
 'all statuses of the table; any code of three digits with any text of 5 (thorough 6) characters; texts of up to 70 kB',
 '-')

prop('C20', 'Settings hold what was configured last',
 'After any sequence of configuration calls on a server or a separate configuration, each setting (keep-alive time, TLS port, key and certificate) has the value given last, or its default if never given. '
 'A configuration applied to a server replaces all of them.',
 ['programs', 'histories'], 'all sequences of configuration calls',
 'No test reads a setting back; one call used to leave the port behind.',
 ['src/config.rs', 'src/server.rs'], [dict(name='settings are replaced', where='src/config.rs: OctaneConfig, Config')],
 ['c20_app:4', 'c20_config:6'], ['c20_app:5', 'c20_config:7'], ['replaced', 'set', 'config'],
 'any sequence of 4 (thorough 5) of 10 calls on a server and 6 (7) of 6 on a configuration, with any ports, any times of a keep-alive (64-bit seconds and nanoseconds) and paths of 2 characters',
 'worker threads (the setting is not used or visible)', observe=['the settings of the server'])

prop('C21', 'JSON derives map every field to its own place and back',
 'For a struct that derives the JSON conversions, with named or unnamed fields, type parameters and other such structs inside, the value it converts to has each field under its own name (or at its own index), and reading that value back gives an equal struct. '
 'A value with a field missing, an extra field or a field that does not convert is refused.',
 ['inputs', 'programs'], 'all values of derived structs and all JSON values',
 'The tests of the macros compile a few structs; swapped or dropped fields need values that differ.',
 ['octane_macros/src/json.rs', 'octane_macros/src/lib.rs', 'octane_macros/src/util.rs'], [dict(name='derived conversions', where='octane_macros/src/json.rs')],
 ['c21_named', 'c21_nested', 'c21_refuse', 'c21_shapes', 'c21_null'], ['c21_named', 'c21_nested', 'c21_refuse', 'c21_shapes', 'c21_null'], ['round trip', 'accepted', 'refused', 'null'],
 'fifteen structs (1, 3, 10, 14 and 40 named fields, 3, 12 and 40 unnamed, generic with bounds and where clauses, nested) with any values of their byte and two-character fields; objects with any subset of the fields and any extra two-letter name, arrays of 0 to 5 elements; fields that are null or empty',
 'structs of other shapes; enums (not supported)', observe=['values of the derived conversions'])

prop('C22', 'Connections do not affect each other',
 'The response to a request depends only on that request and the registered handlers: it is the same whatever was served before on the same server and however the steps of other connections are interleaved with it. '
 'A connection that fails or is dropped half way leaves nothing behind.',
 ['schedules', 'histories'], 'all sequences of requests and all interleavings of connections',
 'The tests serve requests one after another and compare each with a constant; shared state shows in particular orders.',
 ['src/server.rs', 'src/router.rs', 'src/responder.rs'], [SERVE],
 ['c22_history:2', 'c22_twin:2', 'c22_interleave:8', 'c22_dropped', 'c22_three:6', 'c22_open', 'c22_many'], ['c22_history:3', 'c22_twin:2', 'c22_interleave:10', 'c22_dropped', 'c22_three:7', 'c22_open', 'c22_many'], ['history', 'twin', 'interleaved', 'dropped', 'three', 'open', 'many'],
 '8 requests, the first with any 2 (thorough 3) visible characters replaced in two places, followed by any of the 8; three requests after and before ones that differ in any 2 consecutive characters; two connections whose first 8 (10) steps are interleaved in any way, and three whose first 6 (7) steps are; up to 300 connections open at once, finished in three orders; up to 1100 connections before, served, refused, broken and dropped; connections dropped after 0 to 4 steps and any number of bytes',
 'handlers with state of their own; parallel execution inside one step (the steps between two waits run as one)')

prop('C23', 'Broken connections are given up cleanly',
 'When reading from a connection fails at any point, no handler runs on an incomplete request and nothing but a 400 is written; when writing fails or no longer accepts bytes at any point, serving ends with an error, handlers are not run again, and what was written is the beginning of the response. '
 'In no case does the server panic or loop.',
 ['fault_sequences'], 'all points at which reading or writing can fail',
 'The tests never break a connection; a read error used to panic.',
 ['src/server.rs', 'octane_http/src/http1x/mod.rs', 'octane_http/src/http1x/raw_request.rs'], [READ, SERVE],
 ['c23_read:0', 'c23_read:1', 'c23_read:2', 'c23_write:0', 'c23_write:1', 'c23_write:2', 'c23_both:0', 'c23_both:1', 'c23_large'],
 ['c23_read:0', 'c23_read:1', 'c23_read:2', 'c23_write:0', 'c23_write:1', 'c23_write:2', 'c23_both:0', 'c23_both:1', 'c23_both:2', 'c23_large'],
 ['broken', 'served', 'delivered', 'undelivered', 'both', 'large'],
 'three requests, reading failing after any number of bytes, with or without a pause; writing failing or accepting nothing after any of 0 to 299 bytes, in one piece or in pieces of 16; both; requests and responses of up to 20 kB breaking off at seven places; 8 kinds of errors; failures that pass and failures that stay',
 'faults of the listener')

prop('C26', 'Without optional features the server serves the same requests',
 'Built without any of its optional features, the server still answers every connection with exactly one complete response and never panics or hangs. '
 'A request that the full server accepts is shown to the handlers with the same method, path, headers and body, however its bytes arrive; HTTP/1.1 without Host and a body shorter than announced get 400, an unknown method 501, an unknown path 404. '
 'Handlers run for exactly the path of their route (which has no variables), in order of registration, on the server or on a router, until one stops, and the client gets the response they describe.',
 ['inputs', 'configurations'], 'all requests and sets of routes in the build without optional features',
 'The build without features is tested with the same few requests; it has its own versions of matching, parsing and running handlers.',
 ['src/request.rs', 'src/router.rs', 'src/path.rs', 'src/responder.rs', 'src/server.rs'], [SERVE, PARSE, TREE, ROUTER, RESP],
 ['c26_bytes:5', 'c26_window:2:0', 'c26_window:2:1', 'c26_window:2:2', 'c26_insert:2:1', 'c26_split:0', 'c26_split:1', 'c26_length:3', 'c26_routes:4:4', 'c26_order:3', 'c26_answer:3', 'c26_size', 'c26_word:7', 'c26_algebra:4:3', 'c26_many', 'c26_known:5'],
 ['c26_bytes:7', 'c26_window:3:0', 'c26_window:3:1', 'c26_window:3:2', 'c26_insert:2:0', 'c26_insert:2:1', 'c26_insert:2:2', 'c26_split:0', 'c26_split:1', 'c26_split:2', 'c26_length:5', 'c26_routes:6:6', 'c26_order:4', 'c26_answer:5', 'c26_size', 'c26_word:11', 'c26_algebra:6:5', 'c26_many', 'c26_known:9'],
 ['served', 'rejected', 'match', 'no match', 'order', 'answer', 'paths', 'many'],
 'any 5 (thorough 7) bytes, alone or before the end of a head; three requests with any 2 (3) bytes replaced or inserted at any place, or split at any two places; any Content-Length of 3 (5) visible characters; any pattern and path of up to 4 (6) characters out of slash, dot and two letters; 3 (4) handlers of 5 kinds on a server and a router; bodies and header values of 3 (5) characters; sizes around those of buffers up to 20 kB; any words of up to 7 (11) characters in paths and headers; pairs of paths of 4 and 3 (6 and 5) characters; up to 600 handlers, headers or segments; 46 well-known header fields with 67 well-known values or any word of 2 characters and number of 5 (9) digits; pairs of well-known paths',
 'patterns with variables (never match in this build); what is done with requests that only the strict checks refuse; other combinations of features', crate='lean')

LISTEN = dict(name='accept loop', where='src/server_builder.rs: ServerBuilder::new, ServerBuilder::listen; src/server.rs: Octane::listen')
prop('C24', 'The listener serves every connection that arrives',
 'A server told to listen binds exactly the port it was given on all addresses, also one that was in use a moment ago, tells once that it started, and from then on accepts and serves every connection that arrives, whatever the others do: connections that send nothing, send in pieces, do not read, break or end early, or fail while being accepted (aborted, or no descriptors left) neither stop the server nor delay or change what other connections get. '
 'A connection that was answered or broke is closed and leaves no descriptor open; one whose peer is slow is kept. Listening ends only if the port can not be had, with an error.',
 ['schedules', 'fault_sequences'], 'all histories of connections',
 'The tests open a few connections to a listening server, one after another, and none of them fails.',
 ['src/server_builder.rs', 'src/server.rs'], [LISTEN, SERVE],
 ['c24_kinds:1:1', 'c24_kinds:2:0', 'c24_scarce', 'c24_bytes:2', 'c24_stalled:0', 'c24_many', 'c24_start', 'c24_failed'],
 ['c24_kinds:1:1', 'c24_kinds:2:1', 'c24_scarce', 'c24_bytes:4', 'c24_stalled:1', 'c24_many', 'c24_start', 'c24_failed'],
 ['served', 'waits', 'refused', 'scarce', 'many', 'started', 'failed'],
 'two connections of any of 11 kinds (8 errors of accepting among them) and a good one, with their events in any order (thorough: several events at once); a connection that stalls after any byte of the request and 8 (150) numbers of bytes of the response; any 2 (4) bytes on a connection; up to 1100 connections at once in five orders; any port; 15 failures of socket, bind and listen for three ports, others being free',
 'the kernel, which is replaced by a model of sockets and epoll (readiness, edges, backlog, windows, errors); the multi-threaded scheduler: the server runs on the single-threaded scheduler of the same runtime; handlers that panic or block; TLS',
 assumptions=['the model of the socket calls in net/src/sockets.rs behaves like Linux'], crate='net')

NOT_APPLICABLE = [
 dict(id='C25', title='TLS connections are served like plain ones',
  statement='A request sent over TLS gets the response it would get over a plain connection.',
  over=['inputs'], text='all requests over TLS',
  why='The tests make one TLS request.', files=['src/tls/openssl.rs', 'src/tls/rustls.rs', 'src/server_builder.rs'],
  mech=[dict(name='TLS streams', where='src/tls')],
  reason='the TLS stream is OpenSSL (C library through FFI) or ring assembly; neither exists as compiler IR here and cryptography is out of reach of a solver; above the stream the same code is decided by C01-C23'),
]
