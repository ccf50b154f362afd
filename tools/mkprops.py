#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here, one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
I='lib/include/modbus/'; S='lib/src/'
p('C01','Every outgoing message is framed with the right MBAP header',
  'For every unit identifier, transaction identifier and message whose PDU is at most 253 bytes, the framed message is exactly 7 bytes longer than the PDU and consists of the transaction identifier (big endian), protocol identifier 0, length = PDU length + 1 (big endian), the unit identifier and then the PDU bytes. A PDU longer than 253 bytes never produces a frame of more than 260 bytes nor writes outside the supplied buffer.',
  ['inputs'],'all unit ids, transaction ids, messages (of every request/response type) and PDU lengths',
  'Tests frame one message with one set of identifiers.',
  [S+'messages/mbap/MbapMessage.cpp',S+'messages/mbap/MbapMessage.h'],[('MbapMessage::build_message',S+'messages/mbap/MbapMessage.cpp')],
  observe=['returned sequence','bytes written in the buffer'])
p('C02','MBAP stream reassembly does not depend on how the stream is cut',
  'For every byte stream and every way of cutting it into chunks, the parser reports exactly one message per complete frame with protocol identifier 0 and length field at least 1, in stream order and as soon as the last byte of the frame has been received, carrying the transaction identifier, unit identifier and body bytes (the first 253 if the declared body is longer) of that frame. Frames with length field 0 (a bare 7-byte header) or a non-zero protocol identifier are consumed whole and reported never; a reset between two chunks makes the next byte the start of a frame. No stream makes the parser read or write outside its buffer.',
  ['inputs','histories'],'all byte streams, all chunkings, all interleavings with reset',
  'Tests feed a handful of frames in a handful of chunkings; stream x chunking is infinite.',
  [S+'messages/mbap/MbapParser.cpp',S+'messages/mbap/MbapParser.h'],[('MbapParser::parse, find_body_size, send_data, reset',S+'messages/mbap/MbapParser.cpp')],
  [('bytes left to read / reading body / buffer view','position inside the current frame',S+'messages/mbap/MbapParser.h')],['IMbapSink::on_mbap_message'])
p('C03','Requests are encoded exactly as the Modbus specification says',
  'For each of the eight request types and every field value, the encoded PDU is the byte string of the Modbus application protocol (function code, big-endian address, quantity or value, byte count, coils packed least significant bit first with zero padding, registers big endian), and its announced length is the number of bytes written. A request is valid exactly when its quantity is within the protocol limits (1..2000 bits read, 1..125 registers read, 1..1968 coils written, 1..123 registers written; single writes always), and a clone of a request encodes identically.',
  ['inputs'],'all addresses, quantities, value vectors of any length within the limits, all eight request types',
  'Tests encode one example per type.',
  [S+'messages/ReadBitsRequestImpl.cpp',S+'messages/ReadRegistersRequestImpl.cpp',S+'messages/WriteSingleCoilRequestImpl.cpp',S+'messages/WriteSingleRegisterRequestImpl.cpp',S+'messages/WriteMultipleCoilsRequestImpl.cpp',S+'messages/WriteMultipleRegistersRequestImpl.cpp'],
  [('*RequestImpl::build_message / get_message_length / is_valid / clone',S+'messages/')],observe=['bytes written','returned length','validity'])
p('C04','The server decodes requests: accepts exactly the well-formed ones',
  'For every byte string and each of the eight request types, decoding yields the request whose encoding it is when the string is a well-formed PDU of that type with its quantity within the protocol limits. When the PDU has the right function code and length but a quantity, coil value or byte count outside what the protocol allows, the result is the Modbus exception illegal-data-value (a write-multiple PDU whose length disagrees with its byte count and whose quantity or byte count is impossible as well may be answered either way); every other string is rejected as malformed. Decoding never reads outside the string.',
  ['inputs'],'all byte strings (any length, any content), all eight request types',
  'Tests decode a few hand-picked strings per type.',
  [S+'messages/ReadBitsRequestImpl.cpp',S+'messages/ReadRegistersRequestImpl.cpp',S+'messages/WriteSingleCoilRequestImpl.cpp',S+'messages/WriteSingleRegisterRequestImpl.cpp',S+'messages/WriteMultipleCoilsRequestImpl.cpp',S+'messages/WriteMultipleRegistersRequestImpl.cpp'],
  [('*RequestImpl::parse',S+'messages/')],observe=['Expected<Request> returned by parse'])
p('C05','Responses are encoded exactly as the Modbus specification says',
  'For each of the eight response types and the exception response, and for every value (up to the protocol limits), the encoded PDU is the byte string of the Modbus application protocol (byte count, coils packed least significant bit first with zero padding, registers big endian, echoed address and value or quantity; exception responses are the function code with its top bit set followed by the exception code), and its announced length is the number of bytes written. A clone encodes identically.',
  ['inputs'],'all response contents of all nine types',
  'Tests encode one example per type.',
  [S+'messages/ReadBitsResponseImpl.cpp',S+'messages/ReadRegistersResponseImpl.cpp',S+'messages/WriteSingleCoilResponseImpl.cpp',S+'messages/WriteSingleRegisterResponseImpl.cpp',S+'messages/WriteMultipleCoilsResponseImpl.cpp',S+'messages/WriteMultipleRegistersResponseImpl.cpp',S+'messages/ExceptionResponse.cpp'],
  [('*ResponseImpl::build_message / get_message_length, ExceptionResponse',S+'messages/')],observe=['bytes written','returned length'])
p('C06','The client decodes responses: accepts exactly the well-formed ones',
  'For every request and every byte string received as its response, decoding yields the values of the response (one per requested address, in address order, each tagged with its address for reads; the echoed fields for writes) exactly when the string is a well-formed PDU of the matching type and, for reads, its byte count and actual length both fit the requested quantity. A two-byte PDU with the function code and its top bit set yields the corresponding Modbus exception; every other string is rejected as malformed. Decoding never reads outside the string.',
  ['inputs'],'all requests x all byte strings, all eight response types',
  'Tests decode a few hand-picked strings per type.',
  [S+'messages/IMessage.cpp',S+'messages/ReadBitsResponseImpl.cpp',S+'messages/ReadRegistersResponseImpl.cpp',S+'messages/WriteSingleCoilResponseImpl.cpp',S+'messages/WriteSingleRegisterResponseImpl.cpp',S+'messages/WriteMultipleCoilsResponseImpl.cpp',S+'messages/WriteMultipleRegistersResponseImpl.cpp'],
  [('*ResponseImpl::parse, IMessage::parse_function_code',S+'messages/')],observe=['Expected<Response> returned by parse'])
p('C07','Exception codes map one-to-one between wire values and exception types',
  'Each exception type has the wire value of the Modbus specification (1, 2, 3, 4, 5, 6, 8, 10, 11); parsing a wire value gives the type that has that value and gives the unknown type for each of the other 247 byte values, so parsing an encoded type gives it back. Each type (and unknown) prints as its own distinct description whatever the type value, and a Modbus exception carries exactly the type and description it was created with.',
  ['inputs'],'all 256 wire values and all exception type values',
  'Tests sample one direction only (parse of the listed codes).',
  [I+'messages/ExceptionType.h',S+'messages/ExceptionType.cpp',I+'exceptions/ModbusException.h'],[('ExceptionType, parse_exception_type, operator<<',S+'messages/ExceptionType.cpp'),('ModbusException',I+'exceptions/ModbusException.h')])
p('C08','A single-type database behaves as a map from address to value',
  'For every database content, address and value: adding stores the value and returns true exactly when the address was absent, and otherwise returns false and changes nothing; setting replaces the value and returns true exactly when the address is present; getting returns the stored value exactly when present and leaves the output untouched otherwise; validity of an address is its presence. No operation changes any other address.',
  ['inputs','histories'],'all database contents (any set of the 65536 addresses), all addresses and values, bits and registers',
  'Tests use one small database content.',
  [I+'server/db/SingleTypeDatabase.h',S+'server/db/SingleTypeDatabase.cpp'],[('add_value, set_value, get_value, is_valid',S+'server/db/SingleTypeDatabase.cpp')],
  [('m_values','address to value map',I+'server/db/SingleTypeDatabase.h')])
p('C09','Database range operations are all-or-nothing',
  'A range is valid exactly when its count is at least 1 and every address start .. start+count-1 exists (so it never wraps past 65535). Setting or getting a range succeeds exactly when the range is valid; a successful set stores value i at start+i and changes nothing else, a successful get returns the value at start+i in position i, and a failed one changes neither the database nor the output.',
  ['inputs','histories'],'all database contents, all starting addresses, all counts including 0 and counts beyond 65536, bits and registers',
  'Tests use one database content with a few ranges; holes, wrap-around and long ranges are unsampled.',
  [I+'server/db/SingleTypeDatabase.h',S+'server/db/SingleTypeDatabase.cpp'],[('is_valid_range, set_values, get_values',S+'server/db/SingleTypeDatabase.cpp')],
  [('m_values','address to value map',I+'server/db/SingleTypeDatabase.h')])
p('C10','The in-memory server answers requests from the right table',
  'For every content of the four tables and every request, a read request returns the current values of the requested addresses of its own table (each tagged with its address), a write stores exactly the requested values in its own table and echoes address and value or quantity, and a request touching any absent address is answered with the Modbus exception illegal-data-address and changes nothing. The four tables never influence each other, whether accessed by requests, by add functions, or inside a transaction.',
  ['inputs','histories'],'all contents of all four tables, all requests of all eight types, all accessors',
  'Tests use one content and a few requests per type.',
  [I+'server/db/InMemoryDatabase.h',S+'server/db/InMemoryDatabase.cpp'],[('on_request overloads, add_*, get_*/set_*',S+'server/db/InMemoryDatabase.cpp')],
  [('m_coil_db, m_discrete_input_db, m_holding_register_db, m_input_register_db','the four tables',I+'server/db/InMemoryDatabase.h')])
p('C11','All accesses to the in-memory database are mutually exclusive',
  'Every public or request-driven operation of the in-memory database reads and writes the tables only while it holds the database mutex, acquires it once (it never blocks on itself), and has released it when it returns or throws. A transaction runs entirely within one such critical section, exactly once, on this database, so no other operation is interleaved with it.',
  ['schedules'],'all thread interleavings of requests, additions and transactions',
  'Data races and lost atomicity need particular interleavings; the tests are single-threaded.',
  [I+'server/db/InMemoryDatabase.h',S+'server/db/InMemoryDatabase.cpp'],[('m_mutex held through lock_guard in every operation',S+'server/db/InMemoryDatabase.cpp')],
  [('m_mutex','guards the four tables',I+'server/db/InMemoryDatabase.h')])
p('C12','Each accepted client request completes its handler exactly once',
  'On a client channel that is not shut down, the handler of every submitted request is called exactly once over every history: with the response, with a timeout, with a connection error when the connection fails while it is queued or in flight, or with a malformed-request error when it is invalid. After shutdown no handler is called for the requests that were accepted, and a connection error completes every queued request and the one in flight and leaves the channel usable.',
  ['histories','fault_sequences'],'all sequences of submissions, responses, unrelated frames, timeouts, connection errors and shutdown',
  'Tests run a few scripted sequences.',
  [S+'client/channel/ClientChannelTcp.cpp',S+'client/channel/ClientChannelTcp.h',S+'client/channel/PendingRequest.h'],[('send_request, on_mbap_message, on_error, timeout action, shutdown',S+'client/channel/ClientChannelTcp.cpp')],
  [('m_pending_requests, m_current_request','requests whose handler has not been called',S+'client/channel/ClientChannelTcp.h')],['response handlers'])
p('C13','A client channel sends one request at a time, in submission order',
  'A client channel has at most one unanswered request on the connection; valid requests are sent in submission order, each exactly once, framed with the unit identifier given and with transaction identifiers that start at 0 and increase by one (modulo 65536) per accepted request. The next queued request is sent as soon as the one in flight completes by response or timeout, and an invalid request is never sent and uses no transaction identifier.',
  ['histories'],'all sequences of submissions, completions and errors',
  'Tests script two or three requests.',
  [S+'client/channel/ClientChannelTcp.cpp',S+'client/channel/ClientChannelTcp.h'],[('send_request, check_pending_requests',S+'client/channel/ClientChannelTcp.cpp')],
  [('m_current_request','request in flight',S+'client/channel/ClientChannelTcp.h'),('m_next_transaction_id','next transaction id',S+'client/channel/ClientChannelTcp.h')],['ITcpConnection::send'])
p('C14','Responses and timeouts reach the request they belong to',
  'A received message completes the request in flight exactly when both its transaction identifier and its unit identifier are those of that request, and then delivers the message data to that request\'s handler; any other message changes nothing. Each sent request is given its own timeout, which only ever completes that very request (never a later one, even if the timer action was already due when the request completed), and bytes of an incomplete message left over from a connection that failed or was closed are never joined with those of the next one.',
  ['histories','schedules'],'all histories of responses, late or foreign frames, and timer actions firing at any moment after they are due',
  'Tests script one late and one mismatched response; the stale timer needs a particular schedule.',
  [S+'client/channel/ClientChannelTcp.cpp',S+'client/channel/ClientChannelTcp.h'],[('on_mbap_message, timer action in check_pending_requests',S+'client/channel/ClientChannelTcp.cpp')],
  [('m_current_request, m_current_timer','request in flight and its timeout',S+'client/channel/ClientChannelTcp.h')],['response handlers','executor timers'])
p('C15','The server routes each request to its unit and replies to the sender',
  'For every frame received by a running server channel: if a session is registered for its unit identifier and the PDU is a valid request, that session (and no other) is asked exactly once with the decoded request and its response is sent on the same connection with the same unit and transaction identifiers; a Modbus exception from decoding or from the session is sent as an exception response to that function code, and an unsupported function code is answered illegal-function. An unknown unit, an empty or otherwise malformed PDU, or a session error that is not a Modbus exception sends nothing; at most one reply is ever sent per frame.',
  ['inputs','histories'],'all frames, all session tables and all session answers',
  'Tests script a few frames per function code.',
  [S+'server/channel/ServerChannelTcp.cpp',S+'server/channel/ServerChannelTcp.h'],[('on_mbap, process_message, send_message',S+'server/channel/ServerChannelTcp.cpp')],
  [('m_sessions','unit identifier to session',S+'server/channel/ServerChannelTcp.h')],['IServerSession::on_request','ITcpConnection::send'])
p('C16','The server never holds more connections than its maximum',
  'At every moment the number of connections being served by a server (accepted, not ended and not told to close) is at most the configured maximum; accepting one more closes the oldest one, and each served connection that ends frees exactly one place, whatever order of accepts, accept errors, duplicate close notifications and shutdown occurs. After every accept, failed or not, the server goes on accepting until it is shut down, and shutdown closes every connection.',
  ['histories','fault_sequences'],'all sequences of accepts, accept errors, connection ends (notified any number of times) and shutdown',
  'No test exercises the accepting server.',
  [S+'server/channel/AsioServer.cpp',S+'server/channel/AsioServer.h',S+'server/channel/AsioServerTcpConnection.cpp'],[('handle_accept, start_accept, remove_connection',S+'server/channel/AsioServer.cpp')],
  [('m_num_connections, m_connections','connections being served',S+'server/channel/AsioServer.h')])
p('C17','Identifiers and endpoints behave as values',
  'For all values: a unit or transaction identifier reports the value it was built from, two are equal exactly when their values are (and != is the negation), equal unit identifiers hash equally, the default unit identifier is 0xFF; incrementing a transaction identifier adds one modulo 65536, pre-increment returning the new and post-increment the old value. Two endpoints are equal exactly when host name and port both are; on a stream with default formatting identifiers print as 0x followed by 2 (unit) or 4 (transaction) upper-case hexadecimal digits.',
  ['inputs'],'all identifier values, all pairs, all host names and ports',
  'Tests compare a few values.',
  [I+'UnitIdentifier.h',S+'UnitIdentifier.cpp',S+'TransactionIdentifier.h',S+'TransactionIdentifier.cpp',I+'Ipv4Endpoint.h',S+'Ipv4Endpoint.cpp'],[('operators and accessors',S+'TransactionIdentifier.cpp')])
p('C18','A scheduled request polls as long as it runs, with one poll chain',
  'Starting a stopped scheduled request sends it at once, and while it is running the next sending is set exactly one current period after the response to the latest sending of the present run has been delivered to the handler (every response is delivered, and only to the handler given); starting it while running changes nothing. Once stopped it sends nothing until started again, and whatever the order of starts, stops, period changes, responses and timer actions it never has more than one waiting timer that will send.',
  ['histories','schedules'],'all sequences of start, stop, period changes, responses and timer actions',
  'Tests script a few sequences; stop/start with a response outstanding is not among them.',
  [S+'client/session/ScheduledRequest.h',S+'client/session/ScheduledRequest.hpp'],[('start, stop, execute',S+'client/session/ScheduledRequest.hpp')],
  [('m_running, m_timer','running flag and next sending',S+'client/session/ScheduledRequest.h')],['IClientSession::send_request','executor timers'])
p('C19','A client session forwards each request faithfully',
  'For each request type, sending on a session submits exactly that request once to its channel, with the session\'s unit identifier and with the given timeout (the session default when none is given); the user handler is called exactly once per channel answer, with the decoding of the received bytes against that very request or with the channel\'s own error unchanged. Scheduling starts polling with the given request, period, timeout (default when none) and handler, and session shutdown stops every request scheduled so far.',
  ['inputs','histories'],'all requests, timeouts, unit identifiers and channel answers, all eight request types',
  'Tests check one request per type.',
  [S+'client/session/ClientSessionImpl.cpp',S+'client/session/ClientSessionImpl.h'],[('send_request, schedule_request, meta_send_request, meta_schedule_request, shutdown',S+'client/session/ClientSessionImpl.cpp')],
  [('m_unit_identifier, m_default_timeout, m_scheduled_requests','session parameters',S+'client/session/ClientSessionImpl.h')],['channel send_request','user handler'])
p('C20','Manager channels get their own strand and are shut down with it',
  'A manager always runs with at least one thread; every channel it creates uses the given endpoint, adapter (a client connects from it), connection limit and logging level, shares one strand of its own on the manager\'s threads with its connection or server, is registered while the manager lock is held (a channel whose server cannot listen is not created and not registered), and is told to shut down exactly once by the first manager shutdown or destruction that follows (again none of them twice).',
  ['inputs','histories'],'all channel creation arguments and all sequences of creations and shutdowns',
  'No test creates channels through the manager.',
  [S+'ModbusManagerImpl.cpp',S+'ModbusManagerImpl.h',S+'IModbusManager.cpp'],[('create_client_tcp_channel, create_server_tcp_channel, shutdown',S+'ModbusManagerImpl.cpp')],
  [('m_client_channels, m_server_channels','channels to shut down',S+'ModbusManagerImpl.h')])
p('C21','A TCP connection keeps its data alive and is inert after shutdown',
  'On both client and server connections, every byte sequence submitted while connected is transmitted whole, one at a time, in the order submitted, and stays alive and unchanged until its transmission completes; received bytes are passed to the listener exactly as read, in order, followed by the next read; and every read, write, connect or resolve error other than an orderly close by the peer of a client connection is reported to the listener once and closes the connection. On a connection that was closed nothing more is received or transmitted, and the operations that end because of it are no failure. A client connection connects on the first sending after it was made or closed, from the given adapter to the given endpoint (trying the next address when one fails); what is submitted meanwhile is sent once connected, the latest replacing what was not sent yet. After shutdown a connection starts no new operation and calls its listener no more.',
  ['histories','fault_sequences','schedules'],'all interleavings of sends, completions, errors, close and shutdown',
  'The connection classes have no test: they need sockets and faults.',
  [S+'client/channel/AsioClientTcpConnection.cpp',S+'server/channel/AsioServerTcpConnection.cpp'],[('send, send_buffer, read/write/connect/resolve handlers, close, shutdown',S+'client/channel/AsioClientTcpConnection.cpp')],
  [('m_write_buffer, m_is_shutdown, connection status','data in flight and life cycle',S+'client/channel/AsioClientTcpConnection.h')])
p('C22','An expected holds exactly the value or the error it was given',
  'An expected built from a value is valid and returns that value; one built from an error is not valid, reports having exactly the types that error has, returns it by type and as an exception pointer, and throws it when the value is asked. Copying or moving it preserves which of the two it holds and its content; asking a valid one for an error throws.',
  ['inputs','programs'],'all value and error types used and all sequences of construction, copy, move and destruction',
  'Tests cover a few type and value combinations.',
  [I+'Expected.h'],[('Expected constructors, get, has_exception, get_exception, from_exception',I+'Expected.h')])
p('C23','What one side encodes the other side decodes',
  'For every valid request of each of the eight types, decoding its encoding yields an equal request; for every valid request and every response that answers it, decoding the encoded response against the request yields an equal response; decoding an encoded exception response of a known type yields that Modbus exception. The MBAP framing of such a message, fed to a fresh stream parser in any pieces, yields one message with the same unit and transaction identifiers and the same PDU.',
  ['inputs'],'all valid requests and responses of all types, all identifiers, all chunkings',
  'Tests encode and decode separate hand-picked examples.',
  [S+'messages/',S+'messages/mbap/'],[('build_message and parse of each message type',S+'messages/')])
p('C24','Server connections are isolated and sessions live until shutdown',
  'Each server connection has its own stream parser, so bytes of one connection never affect another, and each complete frame is handed to the server channel once together with the connection it came from (nothing if channel or connection is gone). The session last registered for a unit identifier is the one in force, registrations take effect only while the channel is not shut down, starting a channel starts its listening server once (starting it again while started changes nothing), and shutdown stops the listening server, tells every session then registered exactly once and makes the channel silent.',
  ['histories'],'all interleavings of bytes on any number of connections, registrations, start and shutdown',
  'Tests script one connection.',
  [S+'server/channel/ServerConnectionListener.cpp',S+'server/channel/ServerConnectionListenerBuilder.cpp',S+'server/channel/ServerChannelTcp.cpp'],[('ServerConnectionListener, ServerConnectionListenerBuilder',S+'server/channel/ServerConnectionListener.cpp'),('start, shutdown, add_session',S+'server/channel/ServerChannelTcp.cpp')],
  [('m_sessions, m_is_started, m_is_shutdown','session table and life cycle',S+'server/channel/ServerChannelTcp.h')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
