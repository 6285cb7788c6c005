NOTES = 'Every check is ./run.py ID quick|thorough; ./run.py ID replay FILE re-executes a recorded counterexample. See DESIGN.md.'
PBT = 'property-based testing: '
P = []
def p(id, title, statement, over, forall, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, observe=observe, technique=PBT + technique, note=note))

SAN = ' Code is compiled with AddressSanitizer and the trapping part of UBSan, input buffers are exact-size heap blocks, so a memory error is a failure too.'
SIM = ' The real library code runs on a simulated network, clock, timer and random source (libc calls of the object files are redirected), so every schedule is deterministic and replayable.'

p('C01', 'Parsing accepts exactly the well-formed CoAP messages, safely and faithfully',
  'For every byte string, parsing a CoAP message either succeeds and yields exactly the type, code, message ID, token, options (number, length, value, in order) and payload that RFC 7252 assigns to those bytes, or fails with a format error without reading outside the bytes given; it succeeds if and only if the bytes are a well-formed message. The lenient way of parsing only the type and message ID of a malformed message reports those of the bytes given. A message object that failed to parse, or that is reused for another parse, holds nothing of earlier parses.',
  ['inputs'], 'all byte strings up to and beyond the maximum message size', 'Tests parse about 40 hand-written messages; the option delta/length encoding alone has boundary cases at 12/13/268/269/65804 for each of two nibbles, plus every truncation.',
  ['lib/src/coap_msg.c', 'lib/include/coap_msg.h'], [('message parser', 'lib/src/coap_msg.c: coap_msg_parse and its helpers'), ('lenient parser', 'lib/src/coap_msg.c: coap_msg_parse_type_msg_id')],
  ['coap_msg_parse', 'coap_msg_parse_type_msg_id'], 'differential against an independent RFC 7252 decoder, coverage-guided structured and raw byte generators', 'Exploration of generated byte strings against an independent reference decoder.' + SAN)
p('C02', 'Formatting writes exactly the encoding of the message and never overruns',
  'Formatting a message that fits the buffer writes exactly its RFC 7252 encoding, returns its length, and parsing those bytes yields an equal message; formatting into a buffer that is too small reports lack of space, and no byte beyond the buffer is ever written. A message that the wire format cannot represent is rejected when it is built or formatted, never encoded as a different message.',
  ['inputs', 'configurations'], 'all messages the API can build and all buffer sizes', 'Tests format a dozen fixed messages into large buffers; they never shrink the buffer byte by byte and never use options on the extended-length boundaries.',
  ['lib/src/coap_msg.c'], [('message formatter', 'lib/src/coap_msg.c: coap_msg_format and its helpers')], ['coap_msg_format'],
  'round trip and differential against a reference encoder, with every buffer size around the needed one', 'Exploration; the reference encoder is independent of the code under test.' + SAN)
p('C03', 'Editing a message keeps options ordered and every accessor truthful',
  'After any sequence of operations that build, reset, copy or clear a message, its accessors return what those operations set: options sorted by number with equal numbers in insertion order, last-set token, type, code, message ID and payload, and a copy that is equal to and independent of the original. An operation that reports failure for its argument leaves everything else in the message as it was.',
  ['inputs', 'histories'], 'all operation sequences on a message', 'Tests apply short fixed sequences; ordering, copy independence and failed operations in the middle of a history are not explored.',
  ['lib/src/coap_msg.c', 'lib/include/coap_msg.h'], [('sorted option list', 'lib/src/coap_msg.c: coap_msg_op_list_add_last'), ('copy', 'lib/src/coap_msg.c: coap_msg_copy')], ['coap_msg_* accessors'],
  'stateful model-based testing against an in-memory model of a message', 'Exploration of operation histories against a model.' + SAN)
p('C04', 'Block option values are encoded and decoded exactly',
  'For every block number, more flag and size exponent, formatting a block option value and parsing it again yields the same three values in the shortest encoding, and parsing any value of at most three bytes yields the number, flag and block size that RFC 7959 assigns to it (an empty value is block 0, no more, 16 bytes). Longer values, the reserved size exponent and out-of-range numbers are rejected.',
  ['inputs'], 'all block numbers, flags, sizes and all option values', 'Tests sample a few values per encoding length.', ['lib/src/coap_msg.c'],
  [('block option parser', 'lib/src/coap_msg.c: coap_msg_op_parse_block_val'), ('block option formatter', 'lib/src/coap_msg.c: coap_msg_op_format_block_val'), ('lookup', 'lib/src/coap_msg.c: coap_msg_parse_block_op')],
  ['coap_msg_op_parse_block_val', 'coap_msg_op_format_block_val', 'coap_msg_parse_block_op'], 'differential against RFC 7959 arithmetic over generated values', 'Exploration; boundary-biased generator over the 24-bit value space.' + SAN)
p('C05', 'Options are classified, and paths written out, as the specification says',
  'For every option number the library answers critical, unsafe-to-forward, no-cache-key and recognised exactly as RFC 7252 defines, and finding an unrecognised critical or unsafe option in a message returns the first such option or none. Writing the URI path of a message as text yields its path segments in order, separated by slashes, truncated safely to the space given, and returns the full length.',
  ['inputs'], 'all option numbers, all messages, all text buffer sizes', 'Tests use a handful of option numbers and paths.', ['lib/src/coap_msg.c', 'lib/include/coap_msg.h'],
  [('option classes', 'lib/include/coap_msg.h macros and lib/src/coap_msg.c: coap_msg_op_num_is_recognized'), ('path text', 'lib/src/coap_msg.c: coap_msg_uri_path_to_str')], ['coap_msg_check_critical_ops', 'coap_msg_check_unsafe_ops', 'coap_msg_uri_path_to_str'],
  'differential against RFC 7252 bit rules and a reference path writer', 'Exploration.' + SAN)
p('C07', 'Memory, sockets and timers are released, also when things fail',
  'Whatever a program does with messages, clients and servers, and whichever memory allocation, socket, timer or send operation fails at whichever point, every buffer and descriptor acquired is released exactly once, to the pool it came from, by the time the owning object is destroyed. A failed operation reports an error instead of continuing with missing memory, and objects remain usable afterwards.',
  ['fault_sequences', 'histories'], 'all histories, with a failure injected at any allocation or system call', 'Tests never make an allocation or system call fail.', ['lib/src/coap_msg.c', 'lib/src/coap_client.c', 'lib/src/coap_server.c', 'lib/src/coap_mem.c'],
  [('create/destroy pairs', 'coap_msg.c, coap_client.c, coap_server.c: *_create / *_destroy and error paths'), ('pool selection', 'lib/src/coap_mem.c')], ['pool allocation balance', 'open descriptors'],
  'fault injection at generated allocation/system-call indices with ownership accounting of every buffer and descriptor', 'Exploration of faults x histories; guard pools detect wrong-pool, double and missing frees.' + SAN + SIM)
p('C08', 'The server runs each request once and answers duplicates with the same response',
  'A confirmable or non-confirmable request received again by the server (same endpoint and message ID) before that endpoint sends another request is not passed to the application again, whatever its message ID and however much later within the exchange lifetime it arrives. A duplicated confirmable request is answered again: with the acknowledgement, or with the same piggy-backed response, that the first copy received; a duplicated non-confirmable request is ignored.',
  ['histories', 'schedules'], 'all histories of datagrams from any number of endpoints', 'The test server is tested against a fixed script over DTLS, with about 20 scenarios; duplicates in other states (after responses, rejected messages, other traffic) are not reached.', ['lib/src/coap_server.c'],
  [('duplicate detection', 'lib/src/coap_server.c: coap_server_trans_match_req, coap_server_trans_match_resp'), ('transaction handling', 'lib/src/coap_server.c: coap_server_trans_exec, coap_server_exchange')], ['application callback invocations', 'datagrams sent'],
  'stateful model-based testing of the real server on a simulated network', 'Exploration of generated datagram histories against a per-endpoint reference model.' + SAN + SIM)
p('C09', 'Every response belongs to its request',
  'For each new request the server sends at most one response, to the endpoint that made the request, carrying the token of that request and exactly the code, options and payload produced by the application; a piggy-backed response is an acknowledgement with the message ID of the request, and a separate response is preceded by an acknowledgement of a confirmable request and uses a message ID of its own. A confirmable request for a separate-response path is answered by a confirmable separate response, a non-confirmable request by a non-confirmable response, and other confirmable requests by a piggy-backed one.',
  ['histories', 'inputs'], 'all request histories', 'Tests compare a fixed list of requests and responses.', ['lib/src/coap_server.c'],
  [('response assembly', 'lib/src/coap_server.c: coap_server_exchange, coap_server_trans_send*')], ['datagrams sent'], 'stateful model-based testing of the real server on a simulated network', 'Exploration of generated datagram histories against a reference model.' + SAN + SIM)
p('C10', 'The server survives and correctly rejects anything it is sent',
  'Whatever datagrams arrive, in whatever order and from whomever, and even when sending, receiving or allocating fails for one of them, the server keeps serving and never reads or writes outside its buffers. A confirmable message that is malformed, empty, unexpected, too long or not a request is answered with exactly one reset carrying its message ID; any other such message, or one of another protocol version, is silently ignored; a request with an unrecognised critical option is answered with 4.02 (Bad Option) without running the application.',
  ['inputs', 'histories', 'fault_sequences'], 'all datagrams and histories', 'Tests send a few malformed messages to a fresh server.', ['lib/src/coap_server.c'],
  [('rejection', 'lib/src/coap_server.c: coap_server_trans_reject, coap_server_reject_*'), ('critical option check', 'lib/src/coap_server.c: coap_server_exchange')], ['datagrams sent', 'server loop return'], 'stateful model-based testing with hostile datagram generator and injected faults', 'Exploration.' + SAN + SIM)
p('C11', 'Unacknowledged separate responses are retransmitted on the specified schedule',
  'A confirmable response is sent again unchanged after an initial timeout between ACK_TIMEOUT and ACK_TIMEOUT x 1.5 that doubles each time, at most MAX_RETRANSMIT times, and never again once it has been acknowledged or reset, has timed out, or has been replaced by a newer request from that endpoint. Acknowledgements, resets and messages from other endpoints or with other message IDs do not stop it.',
  ['schedules', 'histories'], 'all arrival times of acknowledgements, resets, duplicates and other traffic', 'Tests drop a fixed number of datagrams, with real timers and coarse sleeps.', ['lib/src/coap_server.c'],
  [('acknowledgement timer', 'lib/src/coap_server.c: coap_server_trans_start_ack_timer, coap_server_trans_update_ack_timer, coap_server_trans_handle_ack_timeout')], ['times and contents of datagrams sent'], 'model-based timing check on a virtual clock with generated schedules', 'Exploration; timing judged exactly on the virtual clock.' + SAN + SIM)
p('C12', 'Clients of a server do not affect each other',
  'What an endpoint observes from the server (datagrams it receives, application runs for its requests) depends only on its own datagrams and their times as long as no more endpoints are active than the server can track. When more are active, the endpoint that has been idle longest is the one that is forgotten, and nothing but its pending exchange is lost.',
  ['histories', 'schedules'], 'all interleavings of the traffic of several endpoints', 'Tests use one client at a time.', ['lib/src/coap_server.c'],
  [('transaction table', 'lib/src/coap_server.c: coap_server_find_trans, coap_server_find_empty_trans, coap_server_find_oldest_trans')], ['datagrams per endpoint'], 'metamorphic: each endpoint\'s view of an interleaved history equals its view when alone', 'Exploration; non-interference by projection, eviction order by model.' + SAN + SIM)
p('C13', 'The client delivers only the genuine response to its request',
  'An exchange succeeds only with a response from the server that matches the outstanding request (token, and message ID where it is piggy-backed, with the code, options and payload exactly as received), in either the piggy-backed or separate form and in any order of acknowledgement and response. Every other datagram is rejected (a reset if it is confirmable, silence otherwise) and never returned as the response, and a well-formed one that is unrelated to the exchange (other token or message ID, a request, stale, duplicated) does not disturb it. A reset of the request, or a response with an unrecognised critical option, ends the exchange with an error; a separate confirmable response is acknowledged; every request carries a freshly drawn token; and a message that is not a request is refused without anything being sent.',
  ['inputs', 'histories', 'schedules'], 'all datagrams arriving at any time during an exchange', 'Tests replay a fixed server script of about 25 scenarios.', ['lib/src/coap_client.c'],
  [('response matching', 'lib/src/coap_client.c: coap_client_match_token, coap_client_check_*, coap_client_handle_*'), ('exchange state machine', 'lib/src/coap_client.c: coap_client_exchange, coap_client_exchange_con, coap_client_exchange_non')], ['coap_client_exchange result', 'datagrams sent'], 'stateful model-based testing of the real client against a generated hostile peer', 'Exploration against a reference state machine.' + SAN + SIM)
p('C14', 'The client retransmits on schedule and always finishes',
  'A confirmable request is retransmitted unchanged after a random initial timeout between ACK_TIMEOUT and ACK_TIMEOUT x 1.5 that doubles each time, at most MAX_RETRANSMIT times, and stops as soon as it is acknowledged or answered. Every exchange ends, by response or by time-out error, within the maximum transmit plus response wait, whatever arrives and whenever.',
  ['schedules', 'histories'], 'all loss patterns and arrival times', 'Tests wait for a few real time-outs.', ['lib/src/coap_client.c'],
  [('timers', 'lib/src/coap_client.c: coap_client_start_timer, coap_client_init_ack_timeout, coap_client_start_resp_timer, coap_client_listen_*')], ['times and contents of datagrams sent', 'return of the exchange'], 'model-based timing check on a virtual clock with generated schedules', 'Exploration.' + SAN + SIM)
p('C15', 'Client and server complete exchanges over a lossy network, at most once each',
  'When a client and a server of this library talk over a network that loses (within the retransmission limit), duplicates and delays datagrams, each confirmable exchange succeeds, the application receives exactly the request that was made and runs exactly once for it, and the client receives exactly the response the application gave to that request. However bad the network, an exchange that succeeds returns the right response and no request is ever invented or altered.',
  ['schedules', 'fault_sequences', 'histories'], 'all loss, duplication, delay and reordering schedules', 'Tests run over loopback with at most a few scripted losses.', ['lib/src/coap_client.c', 'lib/src/coap_server.c', 'lib/src/coap_msg.c'],
  [('client exchange', 'lib/src/coap_client.c'), ('server transactions', 'lib/src/coap_server.c')], ['coap_client_exchange result', 'application callback'], 'end-to-end simulation of real client and server under generated network faults', 'Exploration; both ends are the real code.' + SAN + SIM)
p('C16', 'A blockwise GET returns exactly the resource',
  'For every body length, client and server block size and message type, a blockwise GET between a client and a server of this library returns exactly the bytes the application supplied and their number, over a network that loses (within the retransmission limit), duplicates and delays datagrams, and writes nothing else into the caller\'s buffer. If the body does not fit the buffer the client reports an error and never returns part of it as a success.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'all body lengths, block sizes and network schedules', 'Tests transfer a few fixed bodies of under 100 bytes with fixed block sizes.', ['lib/src/coap_client.c', 'lib/src/coap_server.c'],
  [('client block2 loop', 'lib/src/coap_client.c: coap_client_exchange_blockwise_get'), ('server block2 state', 'lib/src/coap_server.c: coap_server_trans_handle_blockwise*')], ['coap_client_exchange_blockwise', 'coap_server_trans_handle_blockwise'], 'end-to-end simulation with generated bodies, block sizes and network faults', 'Exploration.' + SAN + SIM)
p('C17', 'A blockwise PUT or POST delivers exactly the body, and its reply, once',
  'For every body length, block sizes and message type, a blockwise PUT or POST between a client and a server of this library hands the application exactly the bytes the client supplied, once, and returns to the client exactly the reply body and code the application produced, over a network that loses (within the retransmission limit), duplicates and delays datagrams. A body or reply that does not fit the receiving buffer is refused with an error (4.13 by the server) and never delivered in part.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'all body lengths, block sizes and network schedules', 'Tests transfer a few fixed bodies with fixed block sizes.', ['lib/src/coap_client.c', 'lib/src/coap_server.c'],
  [('client block1/block2 loops', 'lib/src/coap_client.c: coap_client_exchange_blockwise_put_post*'), ('server block1/block2 state', 'lib/src/coap_server.c: coap_server_trans_handle_blockwise*')], ['coap_client_exchange_blockwise', 'coap_server_trans_handle_blockwise'], 'end-to-end simulation with generated bodies, block sizes and network faults', 'Exploration.' + SAN + SIM)

p('C18', 'The server assembles and serves blocks correctly whatever the client does',
  'In a blockwise transfer driven by an arbitrary client, the application receives exactly the concatenation of the in-sequence blocks of one endpoint for one method and path, only once the final block has arrived, and each response block is exactly the requested slice of the body with the right block number, size (never larger than either side asked for) and more flag. A block out of sequence is refused with 4.08, a change of method or path, a missing payload or an invalid block option with 4.00, a body that exceeds the buffer with 4.13 and an unsupported method with 5.01; any of these abandons the transfer, so that the next request starts afresh.',
  ['inputs', 'histories'], 'all sequences of block requests from several endpoints, with any numbers, sizes, flags and payload lengths', 'Tests use well-behaved clients with a few fixed bodies.', ['lib/src/coap_server.c'],
  [('block state machine', 'lib/src/coap_server.c: coap_server_trans_handle_blockwise, coap_server_trans_handle_next_block, coap_server_trans_clear_blockwise')], ['datagrams sent', 'application callbacks'], 'stateful model-based testing of the real server with generated block requests', 'Exploration against a model of RFC 7959 block handling.' + SAN + SIM)
p('C19', 'The client transfers blocks correctly whatever the server does',
  'In a blockwise transfer with an arbitrary server the client sends the body as consecutive slices with the right block number, size and more flag, asks for each following response block exactly where the data received so far end, adopts a smaller block size when the server asks for it, and returns exactly the concatenation of the blocks it accepted together with the last response. A response with a missing, invalid or out-of-sequence block option, a payload that does not match its block size, or more data than the buffer holds ends the transfer with an error; an error response ends it with no data; nothing is ever written outside the buffer.',
  ['inputs', 'histories'], 'all sequences of server responses', 'Tests use well-behaved servers with a few fixed bodies.', ['lib/src/coap_client.c'],
  [('block1 and block2 loops', 'lib/src/coap_client.c: coap_client_exchange_blockwise and its helpers')], ['requests sent', 'result and buffer'], 'stateful model-based testing of the real client with a generated server', 'Exploration against a model of RFC 7959 block handling.' + SAN + SIM)

p('C06', 'Buffer pools never hand out the same, a foreign or a partial buffer',
  'A pool created with a number of buffers (a multiple of eight) of a length hands out at most that many buffers at a time, each of the full length, inside its own memory and disjoint from every other live buffer, and refuses a request only when the length asked for exceeds that length or every buffer is in use. Releasing a buffer makes exactly that buffer available again, releasing anything else (null, a foreign or interior pointer, a buffer already released) changes nothing, and the reported number, length and active buffers always agree with the history. Creating with an invalid or overflowing size, or failing to create one of the three shared pools, leaves no pool behind and reports an error.',
  ['histories', 'inputs'], 'all sequences of create, allocate, free and destroy on an allocator object and the three shared pools, with all sizes', 'Tests allocate and free a few buffers in a fixed order.', ['lib/src/coap_mem.c', 'lib/include/coap_mem.h'],
  [('bitmap allocator', 'lib/src/coap_mem.c: coap_mem_create, coap_mem_alloc, coap_mem_free'), ('shared pools', 'lib/src/coap_mem.c: coap_mem_all_create, coap_mem_{small,medium,large}_*')], ['returned pointers', 'active bitmap', 'contents of live buffers'],
  'stateful model-based testing of all four allocators together', 'Exploration; live buffers are stamped and compared after every operation.' + SAN)
p('C20', 'HTTP messages are read exactly as sent, however they are cut up',
  'A well-formed HTTP message, with its body delimited by Content-Length or chunks (with extensions and trailers) or absent, with header lines in any order, letter case of the framing headers, blank padding and folding, is reported incomplete for every proper prefix and, once complete, yields exactly its start line fields, header names and values (white space runs reduced to one space), body bytes and length, whatever follows it. A message with a malformed start line, header line, chunk size, chunk end, trailer or content length is rejected as a format error, never misread. No input, nor an allocation failure while reading it, causes access outside the given bytes, a leak, or acceptance of a message before all of it has arrived.',
  ['inputs', 'fault_sequences'], 'all byte strings and all ways of delivering them', 'Tests parse a list of fixed messages, nearly all whole.', ['proxy/common/src/http_msg.c'],
  [('parser', 'proxy/common/src/http_msg.c: http_msg_parse and the http_msg_parse_* functions')], ['http_msg_parse result', 'message accessors'],
  'structured generation with known meaning, prefixes, hostile mutation and injected allocation failures', 'Exploration against the generated meaning; arbitrary bytes against self-consistency.' + SAN)
p('C21', 'HTTP messages are written exactly as built and read back the same',
  'An HTTP message built from start line fields, headers and a body is written as exactly those fields, headers in the order they were set, and body, is read back as the same message, and setting the start line or body again replaces it. Writing returns the full length and, whatever the space given, never writes outside it and leaves a terminated prefix of the text. A body written as chunks and trailers reads back as the concatenation of the chunks and the trailers; an allocation failure at any point is reported and leaks nothing.',
  ['inputs', 'fault_sequences'], 'all messages, buffer sizes and allocation failures', 'Tests generate fixed messages into ample buffers.', ['proxy/common/src/http_msg.c'],
  [('generator', 'proxy/common/src/http_msg.c: http_msg_generate, http_msg_generate_*'), ('setters', 'proxy/common/src/http_msg.c: http_msg_set_*')], ['generated text and returned length'],
  'round trip and differential against a reference writer, with all buffer sizes and injected allocation failures', 'Exploration.' + SAN)
p('C22', 'URIs are taken apart and put together without loss',
  'Every URI reference is separated into exactly the scheme, userinfo, host, port, path, query and fragment that RFC 3986 assigns, with escapes decoded, and text with an invalid escape is rejected with nothing left set. Components that are set or copied read back as the same values, and the text generated from them is of printable characters with everything that needs it escaped, is of the returned length, never exceeds the space given, and, where it denotes the same components, is read back as the same URI. Failed allocations are reported and leak nothing.',
  ['inputs', 'fault_sequences'], 'all strings, component values, buffer sizes and allocation failures', 'Tests parse and generate a list of fixed URIs.', ['proxy/common/src/uri.c'],
  [('parser', 'proxy/common/src/uri.c: uri_parse and helpers'), ('generator', 'proxy/common/src/uri.c: uri_generate and helpers')], ['component accessors', 'generated text'],
  'structured generation with known components, round trips, hostile mutation and injected allocation failures', 'Exploration against RFC 3986 component rules.' + SAN)
p('C26', 'The proxy runs with exactly the configuration that was written',
  'Parsing a configuration text stores, for every section and name, the value assigned last (identifier, number or quoted text; sections, comments, blank lines and escaped line ends as documented), ignores nothing and invents nothing, and a lexical or syntax error is reported as such with its line and column. The proxy parameters read from a file are the values assigned there or the defaults, an unknown log level, unreadable file, invalid text or failed allocation makes reading fail with nothing left allocated, and no text causes access outside it.',
  ['inputs', 'fault_sequences'], 'all configuration texts, with or without a final line end, and all allocation failures', 'Tests read fixed configuration texts.', ['proxy/common/src/config.c', 'proxy/http_coap/src/param.c'],
  [('parser', 'proxy/common/src/config.c: config_parse, config_parser_*'), ('parameters', 'proxy/http_coap/src/param.c: param_create')], ['config_get', 'param accessors', 'error position'],
  'differential against a reference reader over generated, mutated and file-based texts with injected allocation failures', 'Exploration.' + SAN)
p('C27', 'Byte buffers and string helpers keep every byte and stay within bounds',
  'A data buffer behaves as a bounded byte queue: bytes added are read out once each and in order through any interleaving of adding, consuming and expanding, expansion keeps the contents and never exceeds the maximum, and the reported counts, space and pointers always agree. Bounded string copy and concatenation store the longest fitting prefix, always terminated, and return the full length; loading a text file returns exactly its bytes, terminated, or an error.',
  ['histories', 'inputs', 'fault_sequences'], 'all operation sequences, sizes and contents', 'Tests use a few fixed sizes.', ['proxy/common/src/data_buf.c', 'proxy/common/src/util.c'],
  [('data buffer', 'proxy/common/src/data_buf.c'), ('helpers', 'proxy/common/src/util.c')], ['buffer contents and counters', 'return values'],
  'stateful model-based testing and differential against reference string operations', 'Exploration.' + SAN)
p('C31', 'The shared buffer pools can be used by several threads at once',
  'When several threads allocate from and release to the three shared pools at the same time, no buffer is ever owned by two threads, none is lost, and there is no data race on the state of the pools.',
  ['schedules', 'histories'], 'all interleavings of the operations of several threads', 'Tests use the pools from one thread (the proxy uses them from many).', ['lib/src/coap_mem.c'],
  [('pool locking', 'lib/src/coap_mem.c')], ['contents of live buffers', 'ThreadSanitizer reports'],
  'generated concurrent operation lists, run under ThreadSanitizer with ownership stamps and conservation checks', 'Exploration of schedules the machine produces; race detection is by happens-before and does not depend on the race manifesting.')
p('C23', 'An HTTP request becomes exactly the CoAP request it asks for',
  'An HTTP GET, POST, PUT or DELETE request for an absolute coap or coaps URI without fragment becomes a confirmable CoAP request with that method, the host and port of the URI, one path option per non-empty path segment and one query option per non-empty query argument, in order and individually decoded, an ETag, Max-Age (decimal) or Accept option for each corresponding header (Etag, first max-age of Cache-Control, Accept starting with text/plain) and nothing else; a body of up to 1024 bytes is its payload and a longer one is stored in the body buffer with its length. Anything else is refused with status 501 (method), 400 (URI), 406 (Accept) or 502 (body too long for the buffer), nothing is written outside the buffer, and a failed allocation is reported and leaks nothing.',
  ['inputs', 'fault_sequences'], 'all request lines, header lists, bodies, buffer sizes and allocation failures', 'Tests convert about a dozen fixed requests.', ['proxy/common/src/cross.c', 'proxy/common/src/uri.c'],
  [('request conversion', 'proxy/common/src/cross.c: cross_req_http_to_coap, cross_uri_http_to_coap, cross_headers_http_to_coap')], ['CoAP message', 'status code', 'body buffer'],
  'structured generation of requests together with the CoAP message they mean, with injected allocation failures', 'Exploration; the expected message is computed by the generator.' + SAN)
p('C24', 'A CoAP response becomes exactly the HTTP response it means',
  'A CoAP response becomes an HTTP response with the status assigned to its code, one header for each ETag, decimal Max-Age and text Accept option in order, and the body (the assembled body if there is one, otherwise the payload) with its Content-Length, so that what an HTTP client reads back is that status, those headers and that body whatever bytes the CoAP server put into its options. An unassigned code or a failed allocation is reported as status 502. The URI options of a CoAP message become a URI that is read back as the same options, or an error if they cannot be expressed or do not fit the space given.',
  ['inputs', 'fault_sequences'], 'all codes, option lists, payloads, bodies, buffer sizes and allocation failures', 'Tests convert two fixed responses and seven fixed URIs.', ['proxy/common/src/cross.c', 'proxy/common/src/http_msg.c'],
  [('response conversion', 'proxy/common/src/cross.c: cross_resp_coap_to_http, cross_status_coap_to_http, cross_headers_coap_to_http'), ('URI conversion', 'proxy/common/src/cross.c: cross_uri_coap_to_http')], ['HTTP message and its text', 'status code', 'URI text'],
  'differential against a reference mapping, writing out and reading back, round trip of URI options, injected allocation failures', 'Exploration.' + SAN)
p('C25', 'Each HTTP request on a proxy connection gets its own complete answer, in order',
  'On a connection to the HTTP/CoAP proxy every complete HTTP request within the limits, however it is split or combined into TLS records and whether or not the previous answer was awaited, is answered in order by exactly one HTTP response whose end can be told, and is sent to the CoAP server named by its URI (with the default port of the scheme if it names none) once and unchanged, or not at all when it is refused. The answer carries the status and the whole body of that CoAP server\'s response to that request, or status 400, 406, 501 or 502 for a request that is refused, 504 or 502 for a CoAP exchange that timed out or was not understood, and another server error for other failures of the CoAP side, and never data of another message. When the HTTP client closes, fails, times out or sends what is not an HTTP request, and for every failed allocation, no further request is forwarded and the connection to the CoAP server, the HTTP connection and all memory are released exactly once.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of requests, record boundaries, pipelining, CoAP outcomes, write and allocation failures', 'No test runs the proxy connection at all except by hand against a live server.', ['proxy/http_coap/src/connection.c', 'proxy/common/src/cross.c', 'proxy/common/src/http_msg.c', 'proxy/common/src/data_buf.c'],
  [('receiving and answering', 'proxy/http_coap/src/connection.c: connection_recv, connection_send, connection_exchange'), ('CoAP exchange and choice of server', 'proxy/http_coap/src/connection.c: connection_process, connection_coap_exchange, connection_coap_client_create')], ['bytes the HTTP client receives', 'calls to the CoAP client', 'memory and connections released'],
  'stateful generation of request histories against simulated TLS records and a simulated CoAP client, a reference model of the answers, injected write, connection, exchange and allocation failures', 'Exploration. The TLS library and the CoAP client are replaced by stand-ins (they have checks of their own).' + SAN)
p('C28', 'The DTLS client talks only to a server it can trust, and only securely',
  'With DTLS, a client is created only if the server proves possession of a certificate that leads to a given trust anchor, is within its validity period, is not revoked by a given revocation list and carries the name asked for (if one is asked for), and the key, certificate, trust and revocation files can be used; otherwise creation fails within bounded time and no request is sent; lost handshake datagrams are made up for. A request reaches that server unaltered, no request or response travels in plain text, and a response is returned only if that server sent it in this session for this request, whatever else (plaintext, altered, replayed, or other sessions\' records) arrives; a lost request is sent again, and when the server ends the session, the exchange ends at once. Destroying the client tells the server, and every library object, descriptor and buffer is released in all cases, including failures of the library.',
  ['inputs', 'histories', 'fault_sequences'], 'all server certificates, names, trust settings, handshake losses and interference with the session', 'Tests use one pair of good certificates from fixed files against the repository\'s own server.', ['lib/src/coap_client.c'],
  [('peer verification', 'lib/src/coap_client.c: coap_client_dtls_verify_peer_cert'), ('handshake and session', 'lib/src/coap_client.c: coap_client_dtls_handshake, coap_client_dtls_create, coap_client_send, coap_client_recv')], ['return values', 'datagrams on the wire', 'messages the peer decrypts', 'library objects'],
  'generated certificates and attacks against the real client and the real TLS library, with a reference peer on a simulated network', 'Exploration; whether to trust is decided by the generator that made the certificate. The TLS library itself is trusted.' + SAN + SIM)
p('C29', 'The DTLS server serves only authentic requests of authenticated clients',
  'With DTLS, the application runs exactly once for each request that a client sends in its own completed session, receives it unaltered, and the response goes to that client only; a request sent again is answered without running the application again, and a malformed one never reaches it; where client authentication is compiled in, only for clients that prove possession of a certificate that leads to a given trust anchor, is within its validity period and is not revoked. Plaintext, altered, replayed, garbage datagrams and records of other sessions, from any address, never run the application, never yield a response, and do not end established sessions; a client that stops half way through a handshake occupies the server for a bounded time, a request that another client sends meanwhile is still served, and lost handshake datagrams are made up for. No message travels in plain text, unusable key, certificate, trust or revocation files make creation fail, and every session, library object and descriptor is released in all cases, the peers being told that their session ended.',
  ['histories', 'inputs', 'fault_sequences'], 'all client certificates, histories of connections, requests and closures, handshake losses, and datagrams of an attacker', 'Tests use one client with a good certificate from fixed files.', ['lib/src/coap_server.c'],
  [('peer verification', 'lib/src/coap_server.c: coap_server_trans_dtls_verify_peer_cert'), ('handshake and session', 'lib/src/coap_server.c: coap_server_trans_dtls_handshake, coap_server_trans_dtls_create, coap_server_trans_dtls_pull_func, coap_server_trans_recv, coap_server_exchange')], ['application callback invocations', 'messages the clients decrypt', 'datagrams on the wire', 'library objects'],
  'stateful generation of client histories and attacks against the real server and the real TLS library, with reference clients on a simulated network', 'Exploration, both with and without client authentication; whether to trust is decided by the generator that made the certificate. Interference is injected between handshakes, other clients\' requests also within them. The TLS library itself is trusted.' + SAN + SIM)
p('C32', 'Message IDs and tokens are fresh',
  'The tokens and message IDs of a client\'s requests and the first message ID of a server are drawn from the random source over their whole range, so that in every bit they vary and two exchanges share one only by chance, while a retransmission keeps the ones of its request. The message IDs a server chooses for its own messages stay within 16 bits and differ from those it chose recently (but by chance where the range ends). A random string fills exactly the length asked for.',
  ['inputs', 'histories'], 'all sequences of requests, all random sources and all lengths', 'Tests never compare the identifiers of two exchanges.', ['lib/src/coap_msg.c', 'lib/src/coap_client.c', 'lib/src/coap_server.c'],
  [('random strings and message IDs', 'lib/src/coap_msg.c: coap_msg_gen_rand_str'), ('client identifiers', 'lib/src/coap_client.c: coap_client_exchange and the block-wise exchanges'), ('server identifiers', 'lib/src/coap_server.c: coap_server_get_next_msg_id, coap_server_create')], ['datagrams on the wire', 'coap_msg_gen_rand_str'],
  'generated exchange histories, with collision and per-bit variation tests over the identifiers seen on the wire', 'Exploration; the thresholds are such that the seeded simulated random source cannot trip them by chance.' + SAN + SIM)
p('C30', 'TLS connections of the proxy are authentic, complete and bounded in time',
  'A TLS connection is opened to a server only if the server proves possession of a certificate that leads to a given trust anchor, is within its validity period and carries the name asked for (if one is), also when an earlier session is resumed, and where client authentication is compiled in, one is accepted only from a client whose certificate does so; trusted peers are accepted. Bytes written on one side are read on the other once, in order and unaltered, whatever the sizes of reads, writes and network pieces; the end of the stream is reported only when the peer ended it, a cut-off, altered or stalled stream as an error or timeout, and opening, accepting, reading, writing and closing never wait longer than the timeout given, a read that timed out losing nothing. Unusable files and failed calls are reported, closing tells the peer, the session caches return what was stored last under a key, and every descriptor, session and library object is released in all cases.',
  ['inputs', 'histories', 'fault_sequences'], 'all certificates, names, trust settings, histories of connections and data, network behaviour and failures', 'Tests run one client with good certificates against one server by hand.', ['proxy/common/src/tls_sock.c', 'proxy/common/src/tls.c'],
  [('opening and verification', 'proxy/common/src/tls_sock.c: tls_sock_open, tls_ssock_accept, tls_sock_handshake, tls_sock_verify_peer_cert'), ('stream', 'proxy/common/src/tls_sock.c: tls_sock_read, tls_sock_read_full, tls_sock_write, tls_sock_write_full, tls_sock_close'), ('credentials and session caches', 'proxy/common/src/tls.c')], ['return values', 'bytes read and written on both sides', 'elapsed time', 'library objects and descriptors'],
  'stateful generation of connections, data and interference against the real sockets and the real TLS library, with reference peers on a simulated network; model-based testing of the session caches', 'Exploration, with and without client authentication, IPv4 and IPv6; whether to trust is decided by the generator that made the certificate. The TLS library itself is trusted. A connection may take up to the timeout for waiting and again for the handshake when accepting.' + SAN + SIM)
p('C33', 'The proxy starts, serves and stops in order, and logs at the level asked for',
  'The proxy program starts exactly when its command line and configuration file are right and everything it needs can be had, listening with the configured port and files, and otherwise ends with a failure status and nothing left behind. While it runs every connection that is accepted is served once under its own number, a failed attempt to accept, prepare or serve one costs only that one, and after a hang-up, interrupt, quit or termination signal it stops accepting, and releases the listening socket, the TLS server and all memory once. Messages up to the configured log level are written, with their level and text, and no others.',
  ['histories', 'inputs', 'fault_sequences'], 'all command lines, configurations, histories of connection attempts and signals, and failures of start-up calls, threads and allocations', 'No test runs the proxy program; it is started by hand.', ['proxy/http_coap/src/proxy.c', 'proxy/http_coap/src/listener.c', 'proxy/common/src/thread.c', 'lib/src/coap_log.c'],
  [('start and stop', 'proxy/http_coap/src/proxy.c: main'), ('accepting', 'proxy/http_coap/src/listener.c: listener_thread_func, listener_new, listener_run'), ('threads', 'proxy/common/src/thread.c'), ('log levels', 'lib/src/coap_log.c')], ['exit status and output', 'calls to the TLS server, the connections and the thread library', 'resources released'],
  'stateful generation of configurations, command lines, connection attempts, signals and faults against the real main function, with recording stand-ins for threads, signals and TLS', 'Exploration; threads are run one at a time by the harness (the listener runs when the main thread first waits, a connection at once or after the listener). Failure to allocate the socket object itself may end the listener.' + SAN)
p('C34', 'The sample applications do what they say, also when something fails',
  'The sample servers answer a request for their resource and method with the current time, the registration of the identifier for the address of its sender (created or changed), or the storing of exactly the transferred file, and refuse any other path (4.04), method (5.01), missing (4.00) or too long (5.00) identifier without any effect; the registrar holds exactly the registered identifiers with their latest addresses, in the order of registration, through every sequence of adding, replacing, finding and deleting. The sample clients make exactly the request asked for, accept only a response with the right code, path and payload that fits the buffer given, and report everything else, including a transfer that did not take place, as a failure; the programs hand the key, certificate, trust and name settings to the library in their right places, end with a failure status when they cannot start or do not succeed, and release every message, buffer, file, socket and pool in all cases.',
  ['inputs', 'histories', 'fault_sequences'], 'all requests, responses, histories of registrations and transfers, network losses and failing calls', 'The samples have no tests.', ['sample/'],
  [('registrar', 'sample/reg_server/registrar.c'), ('servers', 'sample/reg_server/reg_server.c, sample/time_server/time_server.c, sample/transfer_server/transfer_server.c'), ('clients', 'sample/reg_client/reg_client.c, sample/time_client/time_client.c, sample/transfer_client/transfer_client.c'), ('programs', 'sample/*/main.c')], ['datagrams exchanged', 'registrar entries', 'files stored', 'return values, exit status and output', 'resources released'],
  'stateful generation of requests, responses, program runs, losses and faults against the real sample programs, with a model of the registrar, the clock and the stored file', 'Exploration, IPv4 and IPv6; with DTLS only the arguments handed to the library are checked. The server programs are entered through main for start and end, and through their run function to serve. A transfer refused by the server need not be a failure of the client program; a response without a time may be accepted as an empty text.' + SAN + SIM)
p('C35', 'Threads that work on objects of their own do not disturb each other',
  'Messages, URIs, configurations, conversions and whole proxy connections that are handled at the same time in different threads, each with objects of its own, give exactly the results they give alone, and so do requests that several clients make of one server at the same time: each gets the response to its own request, and each request reaches the application once. The memory pools and the session caches may be used by all threads at once. No two threads access the same data without synchronisation.',
  ['schedules', 'inputs'], 'all combinations of work in several threads and all schedules', 'No test starts a second thread on the same library.', ['lib/src/', 'proxy/common/src/', 'proxy/http_coap/src/connection.c'],
  [('messages and clients', 'lib/src/coap_msg.c, lib/src/coap_client.c, lib/src/coap_server.c, lib/src/coap_mem.c'), ('proxy connections', 'proxy/http_coap/src/connection.c, proxy/common/src/cross.c, proxy/common/src/http_msg.c, proxy/common/src/uri.c, proxy/common/src/config.c'), ('session caches', 'proxy/common/src/tls.c: tls_server_set, tls_server_get, tls_server_delete, tls_client_set, tls_client_get')], ['results per thread', 'responses per client', 'application callback invocations'],
  'differential: results of generated work in concurrent threads against the same work alone, under ThreadSanitizer; several clients against a server over the loopback interface', 'Exploration of schedules (2 to 4 threads); the first use of the random source is made before the threads start, and a client session found in the cache is read while nobody replaces it.')
P.sort(key=lambda x: int(x['id'][1:]))
