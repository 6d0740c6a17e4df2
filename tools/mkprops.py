#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
N='include/crab/network.hxx'; NH='include/crab/network.hpp'; NP='include/crab/network_posix.hxx'; PW='include/crab/network_posix_win.hxx'
C='include/crab/http/connection.hxx'; S='include/crab/http/server.hxx'; CR='include/crab/http/client_request.hxx'
RP='include/crab/http/request_parser.hxx'; RS='include/crab/http/response_parser.hxx'; WP='include/crab/http/web_message_parser.hxx'
QP='include/crab/http/query_parser.hxx'; TY='include/crab/http/types.hxx'; ST='include/crab/streams.hxx'; STH='include/crab/streams.hpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
NOTEST="No existing test starts a run loop, timer, watcher, socket, server or web socket; the repository's tests only run the parsers, integer parsing and digests on fixed inputs."

p('C01','Timers fire exactly once per arming, never early, never forgotten',
 "A set timer calls its handler exactly once for its latest arming, never while the loop's time (RunLoop::now, which arming uses too) is before the due time of that latest arming (arming again, earlier or later, replaces the previous due time), and the loop never goes to sleep with a due timer unfired nor sleeps past the earliest due time by more than the millisecond rounding of the OS wait. "
 "Among due timers that were not postponed while set, an earlier due time fires first. "
 "is_set is true exactly from arming until the handler is entered, the timer is cancelled or destroyed, and a timer that is cancelled, destroyed or never armed does not fire.",
 ['histories','schedules','inputs'],"every interleaving of arm, re-arm (earlier/later/equal), cancel, destroy and re-create on any number of timers, from any handler, with any passage of time, including zero, negative, sub-millisecond, huge and overflowing delays",
 NOTEST,[N,NH,'include/crab/intrusive_heap.hpp'],[('RunLoopLinks::process_timer',N),('Timer::once_at (lazy postponement)',N),('IntrusiveHeap','include/crab/intrusive_heap.hpp')],
 [('fire_time','heap key of a set timer',NH),('moved_fire_time','real due time of a postponed timer',NH)],['Timer handler','Timer::is_set','RunLoop::now','timeout given to the OS wait'])

p('C02','No callback after cancel, close or destruction of any object',
 "Once a timer, watcher, idle, TCP socket, acceptor, UDP socket or signal has been cancelled, closed without event, deactivated or destroyed - from its own handler, or from the handler of any other object even when its own event was already collected in the same batch - its handler is not called and none of its memory is touched, until it is armed, called, opened or activated again. "
 "Events that belonged to a connection that was closed are never delivered to the new connection opened on the same socket object.",
 ['histories','schedules'],"every order of events within a batch returned by the OS, every object kind pair (canceller, cancelled), every position (before, inside, after own handler) and reuse of the object and of its descriptor number",
 NOTEST,[NH,N,NP,'include/crab/network_base.hpp','include/crab/intrusive_list.hpp'],[('Callable::cancel_callable','include/crab/network_base.hpp'),('IntrusiveNode unlink on destruction','include/crab/intrusive_list.hpp'),('TCPSocket::close',NP),('Watcher::cancel',N)],
 [('triggered_callables','objects whose handler will run in this loop iteration',NH)],['object handlers','is_open'])

p('C03','Watcher calls from other threads are never lost and never invented',
 "After any thread calls a watcher, its handler runs on the loop's own thread after that call began, without needing any other event to wake the loop; several calls may be merged into one handler run, but the handler never runs more often than it was called. "
 "After cancel or destruction on the loop thread returns, the handler does not run for any call that had returned before; a call still in progress elsewhere during the cancel counts either way, at most once. "
 "Whatever the calling thread wrote before the call is visible in the handler, and calls by several threads on several watchers do not disturb each other.",
 ['schedules'],"every interleaving of any number of calling threads with the loop thread's sleep, wake-up, collection, dispatch and cancel steps",
 NOTEST,[N,NP],[('RunLoopLinks::call_watcher / trigger_called_watchers / cancel_called_watcher',N),('eventfd wake-up',NP)],
 [('fired_objects','mutex-protected list of called watchers',NH),('wake_fd','eventfd that interrupts the OS wait',NH)],['Watcher handler'])

p('C04','RunLoop cancel and Thread shutdown work at any moment from any thread',
 "A cancel of a run loop - from its own handlers or another thread, before run() starts, while it sleeps, or between any two of its steps - makes the current or next run() return without any further sleep, after at most the handler already executing or, if none is executing, one more; cancels before the same return may merge. "
 "crab::Thread's constructor returns only when the thread's loop can be cancelled, and cancelling or destroying a Thread at any moment, including after its function has finished or thrown away its loop, always ends that loop and joins, and never touches a destroyed loop.",
 ['schedules'],"every interleaving of cancel with construction, run, sleep, wake-up, handler execution and loop destruction, any number of cancels",
 NOTEST,[N,NP,NH],[('RunLoop::cancel / run (atomic quit + eventfd)',N),('Thread handshake under mutex',N)],[('quit','atomic stop request',NH),('run_loop_ptr','loop visible to cancellers, guarded by a mutex',NH)],['return of RunLoop::run','return of ~Thread'])

p('C05','Idle handlers run only when nothing else is ready, and in rotation',
 "An idle handler runs only when it is active and the loop has just polled the OS and found no event, no called watcher and no due timer waiting; while any idle is active the loop polls but never sleeps. "
 "Active idles run in strict rotation, so between two runs of one idle every other idle that stayed active runs exactly once, and newly activated idles go to the end of the rotation. "
 "Deactivated or destroyed idles never run, including when that happens in the handler of another idle or in the poll just before their turn.",
 ['histories','schedules'],"every sequence of activation, deactivation, destruction and events between polls, any number of idles",
 NOTEST,[N,NH],[('RunLoop::run idle branch',N),('Idle::set_active',N)],[('idle_handlers','rotation list',NH)],['Idle handlers','OS wait calls'])

p('C06','TCP socket: exact byte stream, no lost readiness, one close event',
 "The bytes returned by reads of a TCP socket are exactly the bytes the peer sent, in order, without loss, duplication or invention, and likewise the bytes the peer receives are exactly those that writes reported as accepted, for any splitting, partial transfer or would-block answer of the OS. "
 "After connect succeeds, after a read or write returned 0, or after data, buffer space, end-of-stream or an error appears, the handler is called whenever further progress is possible: the loop never sleeps while the application waits for something the OS has already made available. "
 "When the peer closes or the connection fails, all data received earlier can be read first, then the handler sees is_open() false exactly once; close() gives no event and close with event exactly one.",
 ['fault_sequences','schedules','histories'],"every edge-triggered delivery schedule, partial read/write size, EAGAIN, EOF, reset and connect outcome, and every pattern of application reads, writes, closes and reconnects",
 NOTEST,[NP,NH,'include/crab/network_base.hpp'],[('TCPSocket::read_some / write_some / close / connect / accept',NP),('Callable::can_read / can_write edge bookkeeping','include/crab/network_base.hpp')],
 [('can_read/can_write','OS may have data / space since last would-block','include/crab/network_base.hpp')],['TCPSocket handler, read_some, write_some, is_open'])

p('C07','Buffered socket keeps order, loses nothing and shuts down only after flush',
 "Everything accepted by a buffered TCP socket - direct write_some, write and buffer calls of any sizes, in any mixture - reaches the OS exactly once and in call order, however the OS splits or delays it, without needing further calls by the user, except that data buffered with the buffer-only option may wait for the next write or socket event. "
 "get_total_buffer_size is always the number of accepted bytes the OS has not taken yet. "
 "After write_shutdown further writes are ignored, the end-of-stream is sent only after every accepted byte, and the connection is closed with exactly one handler call when the peer closes or at the latest 15 seconds after the end-of-stream was sent; close discards everything silently.",
 ['fault_sequences','histories','schedules'],"every sequence of write/buffer/write_some/shutdown/close calls and every pattern of partial, refused and failed OS writes",
 NOTEST,[C,'include/crab/http/connection.hpp'],[('BufferedTCPSocket::write / buffer / write_shutdown / sock_handler / shutdown_timer_handler',C)],
 [('data_to_write','queue of unsent pieces','include/crab/http/connection.hpp'),('total_data_to_write','reported buffer size','include/crab/http/connection.hpp'),('write_shutdown_asked','no more data accepted','include/crab/http/connection.hpp')],['bytes and FIN arriving at the peer','get_total_buffer_size','handler'])

p('C08','Circular buffer is an exact bounded FIFO of bytes',
 "A Buffer of capacity N behaves as a byte queue of at most N bytes under every sequence of its operations (read_some, write_some, read_from, write_to, peek, clear, and direct access through read_ptr/read_count/did_read, write_ptr/write_count/did_write and their second parts): bytes come out in order exactly once, size, empty, full and capacity agree with the queue, partial operations report exactly what they moved, and the two readable (writable) parts together cover exactly the stored bytes (free space). "
 "Consuming more than is stored or producing more than is free is refused with an exception.",
 ['histories','inputs'],"every operation sequence on every capacity, including wrap-around, full, empty and zero-length operations and sources/sinks that move fewer bytes than asked",
 "Only exercised indirectly with 8 KB capacities and inputs that never wrap around; no test compares it with a queue.",[STH,ST],[('Buffer index arithmetic',STH),('Buffer::read_from / write_to / peek',ST)],[('read_pos, write_pos','queue bounds',STH)],['Buffer public API'])

p('C09','Stream adapters move every byte exactly once through partial sinks',
 "For every finite stream (memory, vector, string, combined, circular buffer), reads and write_to into any sink or with any max_count move a prefix of the remaining bytes in order, return exactly the number moved, leave exactly the rest readable and report it in size(), whatever portion the sink accepts per call. "
 "The exact-length read and write either transfer all bytes or throw after transferring the maximal prefix; appending streams keep existing content.",
 ['histories','inputs'],"every sequence of partial reads, limited writes, sinks refusing or accepting any portion, appends and moves",
 "No test touches stream classes other than as containers inside the parsers.",[STH,ST],[('I*Stream::write_to, CombinedIStream',ST),('IStream::read, OStream::write',ST)],[],['stream public API'])

p('C10','HTTP server connection: one complete response per request, in order',
 "Every well-formed request a client sends on a connection, in any splitting and also when several are sent back to back, is handed to the application exactly once, in order and with its complete body, and the responses appear on the wire in the same order, completely and correctly framed (content-length or chunks), none before its request was handed over; no request is left waiting in a buffer once the previous response is complete and sent, and the next request is not handed over before the OS took the previous response. "
 "After a response to a non-keep-alive request the server ends the stream after the last response byte and handles nothing further from it; the version and keep-alive of a response follow its request; a response which the application gave no Date carries the current one in the fixed format of HTTP, at most a second older than the moment it was given. A request is upgraded to a web socket only if it asked for it in the way the protocol demands. "
 "Malformed input ends the connection without reaching the application. Requests behind which a client half-closed its stream may be dropped.",
 ['histories','schedules','fault_sequences','inputs'],"every sequence of requests (with/without body, chunked or not, pipelined, keep-alive or not), every splitting of reads and writes, and every way of answering (at once, postponed, streamed)",
 NOTEST,[C,RP,S],[('ServerConnection::advance_state / read_next / write',C)],[('state','REQUEST_* / RESPONSE_* / WEB_MESSAGE_* of the connection','include/crab/http/connection.hpp'),('remaining_body_content_length','declared bytes still to be written','include/crab/http/connection.hpp')],['Server::r_handler','bytes at the client'])

p('C11','Parsing does not depend on how the input is split, and limits hold',
 "For every byte sequence, the request, response, body and web socket frame parsers give the same outcome - same fields, same body, same error or incompleteness, same number of bytes consumed - however the sequence is divided into pieces, and never consume a byte beyond the message. "
 "A bare LF is accepted wherever CRLF is; whitespace, case and empty-element tolerances are those of the documented grammar; unsupported versions, conflicting lengths, wrong transfer codings and over-long headers, chunk headers and trailers are rejected with an exception and no other failure.",
 ['inputs','schedules'],"every input over the grammar's character classes and every division of it into pieces",
 "The parser tests feed fixed messages, mostly in one piece, with CRLF line ends; the corpus replays only check that nothing crashes.",[RP,RS,WP],[('RequestParser::consume',RP),('ResponseParser::consume',RS),('BodyParser::consume',RP),('WebMessageHeaderParser::consume',WP)],[],['parser fields and is_good'])

p('C12','HTTP server: every accepted client is answered or told of disconnect once',
 "For every request handed to a Server's handler exactly one of these happens: the response it wrote, a 422 response if it threw before responding, a 401 response if it threw an authorization error, or - if it postponed - the later response or exactly one call of the postponement handler when the client disconnects first (a half-closed client counts as disconnected; a disconnect behind unread pipelined data is noticed when reading resumes). "
 "Handlers of one client are never called after its disconnect was reported, responses never reach another client's connection, and the server loop survives every std::exception thrown by a request or web socket message handler. "
 "At most max_connections clients are served at once; further ones wait and are served as soon as a served one disconnects.",
 ['histories','schedules','fault_sequences'],"every history of connects, requests, handler outcomes, late responses, disconnects and errors over any number of clients",
 NOTEST,[S,'include/crab/http/server.hpp'],[('Server::on_client_handler / on_client_disconnected / accept_all',S),('Client::write, postpone_response',S)],[('clients','live clients','include/crab/http/server.hpp'),('d_handler','pending postponement','include/crab/http/server.hpp')],['Server::r_handler, postponement handler, bytes at clients'])

p('C13','Web socket receive: exact message reassembly and orderly close',
 "Messages handed to the application are exactly those the peer sent, in order: fragmented messages are reassembled with control frames allowed in between, masking is undone, and the result does not depend on how frames are split into reads; every ping is answered by a pong with the same body in order, pongs are ignored. "
 "Invalid frames (reserved bits, unknown opcodes, fragmented or over-long control frames, continuation without start, new message inside a message) end the connection, text that is not UTF-8 is answered with close code 1007 and not delivered. Messages wait while the application streams a message of its own, and none is forgotten afterwards. "
 "The peer's close is delivered once with its code and reason, and when the connection ends without it the web socket handler gets exactly one CLOSE; nothing is delivered after that (messages of a peer that ended its stream while output to it was still unsent may be dropped) and nothing of an old connection leaks into the next one.",
 ['histories','inputs','schedules'],"every sequence of frames (fragmentation, control interleaving, masking, lengths in all three encodings, violations), every split, on server and client side, and reuse of the connection object",
 NOTEST,[C,WP,S],[('advance_state WEB_MESSAGE_* branches',C),('WebMessageHeaderParser / mask_data',WP),('Server::on_client_handle_message / on_client_disconnected',S)],[('web_message','message being reassembled','include/crab/http/connection.hpp')],['web socket handler','read_next','bytes at the peer'])

p('C14','Web socket send: well-formed frame sequences, pings and close',
 "What a web socket peer receives decodes to exactly the messages the application wrote, in order: minimal-length headers, client frames masked and server frames unmasked, streamed messages as one start frame, one frame per non-empty write and one final frame, with control frames only between frames; control bodies are cut to 125 bytes. "
 "After a close message nothing more is sent and the stream is ended once it is flushed. "
 "A server web socket that has written nothing for 45 seconds sends a ping (or flushes unsent data) and repeats, and stops after close.",
 ['histories','inputs','schedules'],"every sequence of whole, streamed, buffered and control message writes of any size under any write splitting, and any passage of time",
 NOTEST,[C,WP],[('ServerConnection/ClientConnection::write(WebMessage), streaming writes, write_last_chunk',C),('WebMessageHeaderSaver',WP),('on_wm_ping_timer',C)],[('writing_web_message_body','a streamed message is open','include/crab/http/connection.hpp')],['bytes at the peer'])

p('C15','HTTP client connection: request sent once, response matched, upgrade verified',
 "A request written to a client connection - also while the host name is still being resolved - is sent exactly once, to the resolved address, completely and only on the current connection, and the next response (its end given by Content-Length or chunks, otherwise empty) is handed over exactly once with its complete body to an application that reads when called, for any splitting; data the loop has read before a request was written is not taken as its response. "
 "A web socket upgrade succeeds only with a 101 answer carrying the accept value for the key sent, and frames following it immediately are not lost. "
 "Failure of resolution, connection or protocol is reported by exactly one handler call with is_open() false, close gives none, and a closed connection object can be reused without any trace of the earlier one.",
 ['histories','schedules','fault_sequences'],"every order of write, resolution result, connect result, response pieces, disconnect, close and reconnect",
 NOTEST,[C,N],[('ClientConnection::connect / dns_handler / write / advance_state / close',C)],[('waiting_request','request written before the name was resolved','include/crab/http/connection.hpp'),('state','client connection state','include/crab/http/connection.hpp')],['ClientConnection handler, read_next, is_open','bytes at the server'])

p('C16','DNS resolution: one answer per request, none after cancel, on the loop thread',
 "Each resolve that is not cancelled, replaced or destroyed calls its handler exactly once, on the resolver's own loop thread, with the addresses obtained for that request's own name, port and families (an empty list if resolution fails). "
 "After cancel, destruction or a new resolve no result of the earlier request is delivered, whatever the worker thread is doing at that moment, and no freed resolver is touched. "
 "Requests of any number of resolvers on any number of loops are all eventually answered, in order of request. The synchronous forms answer in the calling thread with the addresses of that name, port and families; the one for a single address takes the first IPv4 address, else the first IPv6 address, else throws.",
 ['schedules','histories'],"every interleaving of resolve, cancel, re-resolve, destruction and process exit with the worker thread's take, lookup and publish steps",
 NOTEST,[N,PW],[('DNSWorker::worker_fun',N),('DNSResolver::resolve / cancel / on_handler',N)],[('work_queue, executing_request','worker state guarded by a mutex',N)],['DNS handler','DNSResolver::is_open'])

p('C17','Simple HTTP request: exactly one of response or error, correct reuse',
 "Each request sent that is not cancelled results in exactly one call: the response handler with that request's response, or the error handler if resolution, connection or the exchange fails; after cancel or destruction neither is called. "
 "A request to another server replaces one in progress; a second one to the same server is refused with an exception. A connection is kept only if neither side asked to close it, reused only for the same host, port and protocol and only while still open, and is closed 10 seconds after the last response if unused; the next request may be sent from inside either handler. ",
 ['histories','schedules','fault_sequences'],"every history of send, cancel, responses, disconnects, timeouts and re-sends to the same or other hosts",
 NOTEST,[CR,C],[('ClientRequestSimple::send / on_connection / on_connection_close / on_timeout_timer',CR)],[('requesting','an answer is owed','include/crab/http/client_request.hpp')],['response and error handlers','connections made'])

p('C18','Acceptor hands over every connection once and survives resource limits',
 "Every connection completed by the OS backlog is handed over by can_accept/accept exactly once, in order, with its peer address, whatever batches they arrive in and however many the handler accepts per call, and the handler is called whenever connections may be waiting that can_accept has not yet reported exhausted. "
 "When accept fails because of descriptor or memory limits or another unexpected error, the acceptor retries about once per second until it succeeds, without spinning and without losing connections; aborted connections are skipped. "
 "can_accept without accept keeps the same connection available.",
 ['fault_sequences','schedules','histories'],"every arrival pattern, error sequence of the accept call, and pattern of application accepts",
 NOTEST,[NP],[('TCPAcceptor::can_accept, fd_limit_timer',NP)],[('accepted_fd','connection accepted but not yet handed over',NH)],['TCPAcceptor handler, can_accept, accept'])

p('C19','UDP: datagram boundaries, order and readiness are preserved',
 "read_datagram returns each datagram the OS delivers exactly once, in order, with its own content (cut to the given space), size and sender, including empty datagrams, and no value only when nothing is waiting; write_datagram hands exactly one datagram with exactly the given bytes to the OS, or returns false and does not send. "
 "After a call reported nothing to read or no space, the handler is called when data or space appears; the loop never sleeps on a datagram the application has not been offered, also after transient socket errors.",
 ['fault_sequences','schedules','inputs'],"every arrival pattern, would-block and transient error, zero and oversized buffers and datagrams",
 NOTEST,[NP],[('details::read_datagram / write_datagram',NP)],[('can_read/can_write','edge bookkeeping','include/crab/network_base.hpp')],['read_datagram, write_datagram, handler'])

p('C20','Query, cookie and URI strings are decoded by their documented rules',
 "For every string, query parameters are split at every '&' and first '=', '+' and valid percent escapes are decoded, incomplete or invalid escapes are kept literally, and the last of equal keys wins; cookies are split at ';' and first '=' with surrounding blanks removed. "
 "A URI is split into scheme, user info, host, port, decoded and dot-normalised path and raw query, or rejected; percent-encoding then decoding gives back the original string.",
 ['inputs'],"every string over the separator, escape, hex, blank and ordinary character classes",
 "The existing tests check a few dozen fixed strings (and the URI test fails upstream).",[QP,'include/crab/http/query_parser.hpp',TY],[('QueryParser / CookieParser / URIParser::consume',QP),('url_encode / url_decode',QP)],[],['parse_query_string, parse_cookie_string, parse_uri, url_encode, url_decode'])

p('C21','Headers written by the library are read back by the library unchanged',
 "Every request or response header that can be expressed through the public fields is written as one well-formed header block which the library's own parser accepts and reads back with the same method, target, version, status, length, transfer coding, connection, upgrade, content type, authorization, host, origin, date, server, web socket and other header values. "
 "Setting a URI on a request and getting it back is lossless.",
 ['inputs','configurations'],"every combination of the public header fields",
 "test_http_parsers only parses fixed texts; serialising is never tested.",[TY,RP,RS],[('RequestHeader::to_string, ResponseHeader::to_string, to_string_common',TY),('process_ready_header',RP)],[],['to_string, RequestParser, ResponseParser'])

p('C22','Signals reach the loop handler',
 "After a Signal object is created, every arrival of one of its POSIX signals leads to its handler being called on the loop after the arrival, with merged arrivals allowed, no call without an arrival, and none after destruction; all pending arrivals are consumed so the loop is not woken again for them.",
 ['schedules','histories'],"every arrival pattern of signals relative to loop iterations and handler runs",
 NOTEST,[NP],[('Signal constructor, signalfd drain',NP)],[],['Signal handler'])

p('C23','Digests, base64, hex and UTF-8 validation give the standard results',
 "MD5, SHA-1, CRC-32 and CRC-32C of a message are those of the standards for every content and length (also beyond 2^29 bytes), however the message is divided into pieces of any size including empty ones. Base64 encoding is RFC 4648; decoding inverts it, accepts concatenated padded texts and a missing final padding, and refuses every other text. Hexadecimal encoding and decoding invert each other, odd lengths and other characters are refused. UTF-8 validation accepts exactly the well-formed sequences of the Unicode standard.",
 ['inputs'],"every byte string and division into pieces","A handful of vectors only.",['include/crab/crypto/md5.hpp','include/crab/crypto/sha1.hpp','include/crab/crypto/crc32.hpp','include/crab/crypto/base64.hpp','include/crab/util.hxx'],[('hash add/finalize','include/crab/crypto')])

p('C24','No memory error or undefined behaviour on any input',
 "No input or history makes the library read or write outside live objects or execute undefined behaviour.",
 ['inputs','histories'],"every input and history","The corpus replays run a fixed set of inputs under sanitizers.",['include/crab'],[('whole library','include/crab')])

p('C25','Other platform back ends and TLS behave like the epoll back end',
 "The kqueue, Windows, boost::asio, CoreFoundation and libev implementations and the TLS socket keep the same guarantees as the Linux epoll implementation.",
 ['configurations'],"every supported platform and build option","Cannot be built in the test environment.",['include/crab/network_win.hxx','include/crab/network_boost.hxx','include/crab/network_cf.hxx','include/crab/network_libev.hxx','include/crab/http/crab_tls.hxx'],[('platform implementations','include/crab')])

p('C26','Integer conversion and checked arithmetic are exact or refused',
 "integer_cast of a text gives the number the text denotes - optional whitespace on both sides, optional sign (minus only for signed types), decimal digits without superfluous leading zeros - exactly when it is in the range of the type, and throws for every other text, never wrapping or truncating. "
 "integer_cast between integer types, and from float and double (truncating towards zero), gives the value exactly when it fits and throws otherwise, also for NaN and infinities; safe_add and safe_sub (and the _opt forms) give the exact result or report that it does not fit; safe_abs is the exact absolute value; IntegerSaver writes the shortest decimal text, which reads back to the same number.",
 ['inputs'],"every text, every value and every pair of 8- to 64-bit integer types","test_integer_cast samples some values near the limits.",['include/crab/integer_cast.hpp'],
 [('integer_parse_impl, integer_cast_is_integral','include/crab/integer_cast.hpp'),('safe_add_opt, safe_sub_opt, safe_abs, IntegerSaver','include/crab/integer_cast.hpp')],[],['integer_cast, safe_add, safe_sub, safe_abs, IntegerSaver'])

p('C27','IP addresses are parsed, written and classified by the rules',
 "Address::parse accepts exactly the IPv4 dotted-decimal and IPv6 texts (compressed or not, with or without a trailing IPv4 part), and, in the one-string form, followed by the last ':' and a decimal port up to 65535; it never throws and leaves the address alone when it refuses, and the constructors throw exactly then. "
 "An address tells back its own bytes (get_ip4), port and text; to_string() and << write ip:port, which parses to the same address; is_multicast is true exactly for 224.0.0.0/4 and ff00::/8, is_local exactly for 127.0.0.0/8 and ::1.",
 ['inputs'],"every text, address and port","The existing tests only use a few fixed addresses.",['include/crab/network.hxx','include/crab/network_posix.hxx'],
 [('Address::parse','include/crab/network.hxx'),('Address::parse, get_address, get_port, is_multicast, is_local, get_ip4','include/crab/network_posix_win.hxx')],[],['Address'])

p('C28','Random gives the PCG32 sequence of its seed, in range and unbiased',
 "The sequence of 32-bit results of a Random with a given seed is that of PCG32 (XSH-RR) with stream 2*seed+1, started from state 0 by two steps, however results are taken; bytes, pod<T>() and data() consist of whole results in memory order, the last one cut to the rest of the size; double_value is a multiple of 2^-53 in [0, 1) made of two results; printable_string(n) has exactly n alphanumeric characters, each equally likely (results which would make some more likely are skipped, not folded). "
 "Generators made without a seed, also those of run loops, give sequences different from one another.",
 ['inputs','histories'],"every seed and every sequence of calls","Only a smoke test prints values.",['include/crab/util.hxx','include/crab/util.hpp'],
 [('Random::bytes, pcg32_random_r, printable_string, double_value','include/crab/util.hxx')],[],['Random'])

p('C29','Intrusive list and heap keep exactly their members, in order',
 "After any sequence of insertions, unlinking and destruction of objects, an IntrusiveList contains exactly the objects which were put in and not taken out, once each, in the order of push_front/push_back/insert, forward and backward, with begin/end, empty, front and back in agreement; insertion of an object already in a list does nothing; an object knows whether it is in a list and leaves it when destroyed. "
 "After any sequence of insertions and erasures, an IntrusiveHeap contains exactly its members, once each; front() is a member which is not less than any other; erase removes exactly the given member wherever it is, pop_front exactly the front; insertion of a member and erasure of a non-member change nothing and say so.",
 ['histories'],"every sequence of operations on every number of members and every arrangement of keys","No test covers them directly.",['include/crab/intrusive_list.hpp','include/crab/intrusive_heap.hpp'],
 [('IntrusiveNode, IntrusiveList','include/crab/intrusive_list.hpp'),('IntrusiveHeap, IntrusiveHeapIndex','include/crab/intrusive_heap.hpp')],[],['IntrusiveList, IntrusiveHeap (timers, watchers, sockets, acceptors of RunLoop)'])

p('C30','optional and string_view keep their value and bounds in every language mode',
 "crab::optional has a value exactly when one was assigned, constructed, emplaced or copied from one that had, and gives back exactly that value; value() throws when there is none. crab::string_view shows exactly the given characters (also for an explicit length, zero characters inside, empty views), substr gives the characters from the position up to the count or the end and throws only when the position is after the end, remove_prefix/remove_suffix drop exactly so many, and it equals a string exactly when the characters are the same. Both in C++14, where they are crab's own, and in C++17, where they are the standard's.",
 ['inputs','configurations'],"every sequence of assignments and cuts in both language modes","No test is compiled as C++14.",['include/crab/util.hpp'],
 [('optional, string_view','include/crab/util.hpp')],[],['crab::optional, crab::string_view'])

p('C31','Sockets are set up as asked; descriptors never leak, block or close twice',
 "A TCP connection, acceptor, datagram transmitter or receiver and signal object which is reported as made has exactly one new open descriptor, non-blocking, watched by the run loop, of the address family, bound or connected to the given address, with exactly the options asked for (buffer sizes - set early enough to have an effect -, TCP_NODELAY unless tcp_delay, SO_REUSEADDR, SO_REUSEPORT, multicast adapter, group and ttl; signals blocked); connections accepted are non-blocking and keep the options of the acceptor. "
 "When a system call fails at any step, connect() returns false (constructors throw) and every descriptor opened on the way is closed; the descriptor an object had before is closed when it is connected, accepted into, closed or destroyed, each exactly once, and none else. No call on a socket ever blocks the thread, raises SIGPIPE or uses a closed descriptor. local_address and remote_address are those of the connection; an address of a multicast adapter which does not exist is refused; a second RunLoop in a thread is refused.",
 ['faults','histories','inputs'],"every sequence of operations and every system call failing at any point","Tests use loopback sockets whose set-up never fails and look at no option.",[NP],
 [('TCPSocket::connect/accept/close, TCPAcceptor, UDPTransmitter, UDPReceiver, Signal, FileDescriptor, set_nonblocking',NP)],[],['TCPSocket, TCPAcceptor, UDPTransmitter, UDPReceiver, Signal, RunLoop'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
