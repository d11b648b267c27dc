def P(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, 'technique': technique, 'note': note}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    return d


NOTE = ('Sound up to the stated assumptions (evidence lists them) for everything the rules name; library calls (std, tokio, rand) are '
        'replaced by hand-written models, which are trusted.')

PROPS = [
 P('P01', 'No datagram and no API call makes the library panic',
   'Whatever bytes a peer sends, in whatever order, and whatever arguments an application passes to the public functions, no code of the '
   'library panics: no arithmetic overflow, no index or slice out of range, no failed unwrap, in the callers or in the background tasks of a '
   'listener or connection.',
   ['inputs', 'histories', 'schedules'], 'every datagram content and length, every sequence of datagrams and API calls, every loss pattern',
   'The tests send well-formed traffic between two copies of the library; a panic needs a particular malformed length, index or counter value.',
   ['src/packet.rs', 'src/datatype.rs', 'src/arq.rs', 'src/fragment.rs', 'src/server.rs', 'src/socket.rs'],
   [('bounds-checked reader', 'src/datatype.rs'), ('packet decoders return Result', 'src/packet.rs'), ('frame set parsing', 'src/arq.rs FrameVec::new'),
    ('receive worker', 'src/socket.rs start_receiver'), ('listen worker', 'src/server.rs listen')],
   'abstract interpretation of MIR with inferred inductive invariants; each panic edge is an obligation', NOTE),
 P('P02', 'Decoders read back what encoders wrote',
   'For every kind of packet the library can both write and read, reading back a written packet yields the same field values (IPv4 and IPv6 '
   'addresses, strings, range lists, padding and data-frame headers of every reliability and fragment flag included), and an enumeration '
   'converted to its wire code and back is unchanged.',
   ['inputs'], 'every value of every field of every packet type', 'The tests round-trip a few constants; a swapped field, width or byte order that is '
   'symmetric for those values survives.', ['src/packet.rs', 'src/datatype.rs', 'src/arq.rs'],
   [('packet encoders and decoders', 'src/packet.rs'), ('reader and writer', 'src/datatype.rs'), ('frame codec', 'src/arq.rs FrameSetPacket, FrameVec')],
   'symbolic byte-sequence abstraction of each encoder composed with its decoder', NOTE),
 P('P03', 'Packets on the wire have the published RakNet layout',
   'Every packet the library writes has the packet id, field order, field widths and byte order of the RakNet protocol (offline message magic, '
   'big-endian integers, little-endian 24-bit sequence numbers, inverted IPv4 octets, 46-byte MTU padding allowance, ACK/NACK range records, '
   'frame headers with bit lengths), so other RakNet implementations can read it.',
   ['inputs'], 'every value of every field of every packet type and frame', 'Both ends of the tests are the same code, so a layout wrong in the same way on both sides passes.',
   ['src/packet.rs', 'src/datatype.rs', 'src/arq.rs'],
   [('packet encoders', 'src/packet.rs'), ('writer', 'src/datatype.rs'), ('frame encoder', 'src/arq.rs FrameSetPacket::serialize')],
   'symbolic byte-sequence abstraction of each encoder compared with a layout table', NOTE),
 P('P05', 'Message datagrams respect the negotiated MTU',
   'A datagram that carries a message (frame header, payload and 28 bytes of IP/UDP header) never exceeds the MTU the connection was created with, which is '
   'kept within 400..1500 whatever the peer asked for. A message of any kind but ReliableOrdered is refused with PacketSizeExceedMTU exactly when it '
   'exceeds MTU minus 60 bytes, and a refused message queues nothing and uses up no number; a ReliableOrdered message is never refused for its size.',
   ['inputs', 'configurations'], 'every message length, every reliability, every negotiated MTU',
   'The tests send small messages and one large one at one MTU; an oversized datagram still arrives over loopback.', ['src/arq.rs'],
   [('size limit and fragment size', 'src/arq.rs SendQ::insert'), ('MTU clamp', 'src/arq.rs SendQ::new')],
   'abstract interpretation of the send queue per reliability; linear size obligations at every enqueue and every refusal', NOTE),
 P('P08', 'Ordered messages are delivered in order, once, without gaps',
   'The receive queue hands over ReliableOrdered messages in exactly the order of their ordered index: each index once, never one before all lower ones, '
   'and every message whose predecessors were delivered is handed over by the next flush. A duplicate of a delivered message is dropped, a message that '
   'arrived early is kept unchanged until its turn.',
   ['histories', 'schedules', 'fault_sequences'], 'every sequence of insertions and flushes: every arrival order, duplication and loss pattern',
   'The tests insert a few frames in a handful of orders.', ['src/arq.rs'],
   [('insertion', 'src/arq.rs RecvQ::insert'), ('delivery', 'src/arq.rs RecvQ::flush')],
   'inductive account of the delivery cursor: abstract interpretation of insert and flush on an arbitrary queue', NOTE,
   [('delivery cursor', 'next ordered index to hand over', 'src/arq.rs RecvQ')]),
 P('P09', 'Sequenced messages are delivered newest-only',
   'A sequenced message (reliable or not) is accepted exactly when its sequenced index is not older than every sequenced message accepted before, and '
   'accepting it advances that bound past it; older ones are dropped. Accepted sequenced, unreliable and reliable messages are handed over unchanged by '
   'the next flush, in the order of their datagram sequence numbers, and are then forgotten.',
   ['histories', 'schedules', 'fault_sequences'], 'every sequence of insertions and flushes',
   'The tests insert a few frames in a handful of orders.', ['src/arq.rs'],
   [('insertion', 'src/arq.rs RecvQ::insert'), ('delivery', 'src/arq.rs RecvQ::flush')],
   'abstract interpretation of insert and flush on an arbitrary queue; acceptance condition per path', NOTE,
   [('sequenced cursor', 'lowest sequenced index still accepted', 'src/arq.rs RecvQ')]),
 P('P13', 'Public calls do what they report',
   'send refuses an empty message and one not beginning with 0xfe (PacketHeaderError) and a closed connection (ConnectionClosed) without queueing anything, and '
   'otherwise queues the message once, unchanged, with the given reliability, before it succeeds. recv returns the next received message unchanged, never takes one '
   'without returning it and reports the end only when none is left; flush succeeds only on an open connection whose send queue holds nothing unsent or unacknowledged. '
   'accept returns the next established connection, drops none, and refuses only a listener that is closed or not listening; a connection reports the peer address, '
   'local address and version it was made with.',
   ['inputs', 'histories', 'schedules'], 'every argument, every state of the connection or listener, every interleaving with its tasks',
   'The tests call each method on a healthy connection in one order.', ['src/socket.rs', 'src/server.rs'],
   [('send, recv, flush', 'src/socket.rs RaknetSocket'), ('accept', 'src/server.rs RaknetListener'), ('constructors', 'src/socket.rs from, connect_with_version')],
   'abstract interpretation of each public method with arbitrary state; contract on every exit', NOTE),
 P('P19', 'Fragmented messages are cut and reassembled exactly',
   'A ReliableOrdered message too long for one datagram is cut into consecutive pieces, numbered from 0, that cover it without gap or overlap and share one '
   'compound id, one ordered index and the true piece count. The receiver joins the pieces of one compound id in index order, only when all are '
   'there, into one message carrying their ordered index, whatever order they arrive in, and forgets them.',
   ['inputs', 'histories', 'schedules'], 'every message length and MTU, every arrival order and duplication of fragments, every interleaving of compounds',
   'The tests reassemble three fragments in order.', ['src/arq.rs', 'src/fragment.rs'],
   [('cutting', 'src/arq.rs SendQ::insert'), ('collecting', 'src/fragment.rs FragmentQ::insert'), ('joining', 'src/fragment.rs FragmentQ::flush, Fragment::merge')],
   'symbolic byte-sequence abstraction of the pieces and of the merged payload; loop accounts', NOTE),
 P('P20', 'Simulated packet loss happens only when enabled',
   'A connection whose packet loss simulation was never enabled hands every outgoing datagram to the UDP socket. With a configured stage s, a '
   'datagram is withheld only when a draw from 0..=10 exceeds s, so stage 10 loses nothing; a datagram that is not withheld is sent once, whole, to its target.',
   ['configurations', 'inputs', 'schedules'], 'every configuration of the simulation, every draw, every datagram',
   'The tests run with simulation off or with one stage and cannot tell a dropped datagram from a slow one.', ['src/socket.rs'],
   [('sending function', 'src/socket.rs sendto'), ('setter', 'src/socket.rs set_loss_rate')],
   'path-sensitive dataflow: path condition of every send and every omission', NOTE),
 P('P21', 'Log output is gated by its bit of the log switch',
   'The library prints nothing unless logging was switched on, and then only messages of the classes whose bit (1 debug, 2 error, 4 info) is set; '
   'the switch starts off and holds exactly the value the application last set.',
   ['configurations', 'schedules', 'inputs'], 'every value of the switch, every print in every task',
   'No test looks at standard output.', ['src/log.rs', 'src/server.rs', 'src/socket.rs', 'src/arq.rs'],
   [('log macros', 'src/log.rs'), ('switch', 'src/log.rs enable_raknet_log')],
   'path conditions at every print call (must-be-implied rule)', NOTE),
 P('P22', 'No blocking call runs on the async runtime',
   'No operation of the library blocks the thread it runs on: all waiting (for time, datagrams, locks, queues) suspends the task instead, and no '
   'thread-blocking lock is held across a suspension point.',
   ['schedules', 'programs'], 'every function and every suspension point', 'A blocking call passes every functional test on an idle multi-threaded runtime.',
   ['src/server.rs', 'src/socket.rs'], [('async workers', 'src/socket.rs start_*, src/server.rs listen')],
   'who-may-call query over resolved callees plus lock-held-at-await dataflow', NOTE),
 P('P23', 'The library contains no unsafe code',
   'The library has no unsafe block, function or implementation, no mutable static and no foreign function, so no input can corrupt memory through it.',
   ['inputs', 'programs'], 'every body of the crate', 'Undefined behaviour need not show in a test run.', ['src/lib.rs'],
   [('safe Rust only', 'src/*.rs')], 'HIR query over every body and item', NOTE),
 P('P29', 'Frames are numbered without gap or reuse',
   'Every reliable frame queued for sending gets the next reliable index, every ordered message the next ordered index (one for all its fragments), every '
   'sequenced message the next sequenced index, and messages of other kinds advance none of them. A fragmented message gets a compound id '
   'different from the one before, and a refused message consumes no number.',
   ['inputs', 'histories'], 'every sequence of messages of every kind and length', 'The tests send few messages of one kind each.', ['src/arq.rs'],
   [('numbering', 'src/arq.rs SendQ::insert')],
   'abstract interpretation of the send queue per reliability; counter values in terms of their entry values', NOTE,
   [('counters', 'next reliable, sequenced, ordered index and compound id', 'src/arq.rs SendQ')]),
 P('P04', 'What does not decode has no effect on a connection',
   'A datagram that is empty, unknown or malformed, and a message that does not decode, is dropped without effect: no message of it is delivered, nothing is queued or '
   'acknowledged by it, and the connection and its tasks go on. Every decoder is given the whole datagram or message that was received, and of everything received only '
   'a Disconnect closes the connection.',
   ['inputs', 'histories'], 'every datagram and message content in every state of a connection',
   'The tests exchange well-formed traffic; a malformed datagram at the wrong moment must not end a task or apply half of itself.', ['src/socket.rs'],
   [('receiving task', 'src/socket.rs start_receiver'), ('message handling', 'src/socket.rs handle')],
   'abstract interpretation of every spawned task with the captured values of each constructor; monitor over decoder results and effects', NOTE),
 P('P10', 'Datagrams that are due are sent to the peer',
   'At least every 50 ms while it is open, a connection asks its send queue which datagrams are due by the current time and sends every one of them, serialized unchanged, to '
   'its peer. The sending task sends every datagram handed to it, unchanged, to the address given with it. Only loss simulation drops one.',
   ['schedules', 'histories'], 'every content of the send queue, every schedule of the tasks',
   'A datagram skipped in one cycle is repaired by a later retransmission and no test notices.', ['src/socket.rs'],
   [('periodic task', 'src/socket.rs start_tick'), ('sending task', 'src/socket.rs start_sender')],
   'abstract interpretation of the spawned tasks; monitor following each datagram from the queue to the socket', NOTE),
 P('P11', 'Received sequence numbers are acknowledged, missing ones asked for',
   'Every frame set taken in makes its own sequence number, and no other, one to be acknowledged, and makes the numbers it is ahead of the newest seen before ones to ask for, until they '
   'arrive; collecting hands each out once. After every frame set a connection sends the collected ranges to its peer in one ACK, and in every cycle of its periodic task the '
   'missing ones in one NACK, both unchanged and with the true number of ranges (up to 65535).',
   ['inputs', 'histories', 'schedules'], 'every datagram received, every state of the receive queue',
   'An acknowledgement lost in one place is covered by a retransmission; the tests see only that data arrives.', ['src/arq.rs', 'src/socket.rs'],
   [('number sets', 'src/arq.rs ACKSet, RecvQ::insert'), ('acknowledging', 'src/socket.rs start_receiver'), ('asking again', 'src/socket.rs start_tick')],
   'abstract interpretation of the number sets (as sets of integers, over symbolic ranges) and of the spawned tasks; monitor following the collected ranges into the encoder and to the socket', NOTE),
 P('P12', 'Received ACKs and NACKs are applied to exactly their numbers',
   'For every ACK or NACK that decodes, each number of each of its ranges, from the first to the last inclusive, is reported to the send queue, as acknowledged for an '
   'ACK and as missing for a NACK. No other number is, and nothing else acknowledges or asks again.',
   ['inputs'], 'every list of ranges, every bound', 'An off-by-one at a range end only causes one spurious retransmission or one lost datagram that tests do not wait for.', ['src/socket.rs'],
   [('ACK and NACK handling', 'src/socket.rs start_receiver')],
   'abstract interpretation of the receiving task with relational loop invariants over range bounds', NOTE),
 P('P14', 'Closing ends a connection completely',
   'close queues a Disconnect for the peer and closes the connection, once; a received Disconnect and the end of its datagrams close it too. Every background task looks at '
   'whether the connection is closed in every cycle, goes on while it is open and starts no further cycle once it saw it closed. A connection closed by its application sends '
   'a Disconnect datagram to the peer, and one that ends tells its listener its own address.',
   ['schedules', 'histories'], 'every state a connection can be closed in, every schedule of its tasks',
   'The tests close idle connections and end right after; a task left behind or a listener never told shows only later.', ['src/socket.rs'],
   [('close', 'src/socket.rs close'), ('tasks', 'src/socket.rs start_receiver, start_tick, start_sender')],
   'abstract interpretation of close and of every spawned task; typestate of the close semaphore per cycle', NOTE),
 P('P15', 'A connection silent for 60 seconds is closed, a live one is not',
   'Every datagram received sets the time of the last one to the current time, and nothing else does. The periodic task compares it with the current time in '
   'every cycle, at least every 50 ms, closes the connection when more than 60000 ms have passed, and never when at most that passed.',
   ['schedules', 'histories'], 'every pattern of arrivals and every clock value', 'No test waits a minute.', ['src/socket.rs'],
   [('heartbeat', 'src/socket.rs start_receiver'), ('timeout', 'src/socket.rs start_tick')],
   'abstract interpretation of the spawned tasks; linear arithmetic over the stored and the current time', NOTE,
   [('last_heartbeat_time', 'time of the last datagram received', 'src/socket.rs RaknetSocket')]),
 P('P24', 'Dropping a connection or listener closes it',
   'However a connection or listener was made, dropping it gives a notice that cannot be lost, exactly one task waits for that notice, and when it comes closes the '
   'object. Nothing but the destructor gives that notice, so an object in use is never closed by it.',
   ['schedules', 'histories'], 'every constructor, every moment of the drop', 'The tests end right after dropping; a notice lost or given early depends on the schedule.',
   ['src/socket.rs', 'src/server.rs'], [('Drop', 'src/socket.rs, src/server.rs'), ('drop watchers', 'src/socket.rs, src/server.rs drop_watcher')],
   'abstract interpretation of constructors, spawned tasks and destructors; identity of the notification followed between them', NOTE),
 P('P25', 'Connected requests are answered and echo the request',
   'Each ConnectionRequest that decodes is answered with a ConnectionRequestAccepted, each ConnectionRequestAccepted with a NewIncomingConnection, each ConnectedPing with a '
   'ConnectedPong, queued for the peer. The answer echoes the time stamp of the request as decoded, and carries the current time and the address of the peer where it has a field for '
   'them; connecting completes on the ConnectionRequestAccepted.',
   ['inputs', 'histories'], 'every request, in every state of a connection', 'The tests look at no field of these packets.', ['src/socket.rs'],
   [('message handling', 'src/socket.rs handle')],
   'abstract interpretation of the receiving task; provenance of every field of the answers', NOTE),
 P('P26', 'Received messages reach the application once and unchanged',
   'Every frame of every datagram enters the receive queue, and what it makes ready is collected before the next datagram is awaited. Each message collected that begins with 0xfe is handed '
   'to the application once and unchanged, and no protocol message is.',
   ['inputs', 'histories'], 'every number of frames and messages, every content', 'Which messages get lost or doubled depends on how they were packed into datagrams.', ['src/socket.rs'],
   [('receiving task', 'src/socket.rs start_receiver'), ('message handling', 'src/socket.rs handle')],
   'abstract interpretation of the receiving task; monitor following each frame and message through both loops', NOTE),
 P('P07', 'A listener keeps one session per peer and hands each out once',
   'A peer that opens a connection gets a session under its own address unless it has one, in which case it is told that it is connected already and the session stays as it is. Each new '
   'session is handed to accept as one connection to that peer, and takes its datagrams from the channel kept with the session. No datagram ends the session of a peer other than its sender.',
   ['inputs', 'histories'], 'every datagram of every peer, in every state of the tables of a listener', 'The tests connect few clients, each once, and never repeat or interleave their requests.',
   ['src/server.rs'],
   [('listen worker', 'src/server.rs listen'), ('session table', 'src/server.rs RaknetListener.sessions'), ('accept queue', 'src/server.rs bind, from_std, accept')],
   'abstract interpretation of the listener task over opaque maps; per-datagram typestate on lookups, inserts, removals and sends', NOTE),
 P('P16', 'Reliable messages stay queued, and are resent, until acknowledged',
   'A message leaves the send queue only by being sent, and a reliable one stays queued after that until a number it was sent under is acknowledged; each of those numbers, and no other, does that, '
   'and sending it again never changes it. An unacknowledged message is sent again, under a number not used before, once its timeout (which restarts with each sending) has passed and not '
   'before; the timeout stays between 50 ms and 12 s, growing by half with each repetition.',
   ['histories', 'inputs', 'fault_sequences'], 'every pattern of losses, acknowledgements and requests, every clock value, every kind of message',
   'A message forgotten after one particular loss, or numbers forgotten after two, need a history that no test produces.', ['src/arq.rs'],
   [('sending', 'src/arq.rs SendQ::flush, tick'), ('acknowledging', 'src/arq.rs SendQ::ack, nack, update_rto'), ('emptiness', 'src/arq.rs SendQ::is_empty')],
   'abstract interpretation of SendQ on queues with symbolic entries (0 to 2 waiting, every kind), single steps and histories of up to three sends; set and typestate rules on exit states',
   NOTE + ' Queues with more than two entries are not analysed.',
   [('sent_packet', 'messages waiting for their acknowledgement, with the numbers they were sent under', 'src/arq.rs SendQ')]),
 P('P17', 'The handshake agrees on version, MTU and address',
   'A listener accepts exactly the requests 1 that ask for a version it supports, records that version for their sender, and answers the others with a refusal that names a supported version; '
   'a connection reports the version recorded for its peer. Request 2 is answered with the address of its sender and the MTU it asked for, which, kept within its bounds, is the MTU of the session. '
   'A client asks for the version it was given and takes the MTU and version that were agreed.',
   ['inputs', 'histories'], 'every version and MTU, every sender, every state of the tables of a listener', 'The tests use two versions and one MTU; agreement must hold for each value a peer may send.',
   ['src/server.rs', 'src/socket.rs'],
   [('version table', 'src/server.rs RaknetListener.version_map'), ('requests 1 and 2', 'src/server.rs listen'), ('client handshake', 'src/socket.rs connect_with_version')],
   'abstract interpretation of the listener and of connecting; provenance of every field of the replies and of the session', NOTE),
 P('P18', 'A ping is answered with the current motd of the listener',
   'A listener answers each ping that decodes, once, with a pong that carries its id and the motd as it is when the ping is answered. set_motd and set_full_motd set that motd and get_motd '
   'returns it; ping of a client returns the motd of the pong.',
   ['inputs', 'histories'], 'every ping, every motd, every moment of setting it', 'The tests set the motd before they listen and ping once.',
   ['src/server.rs', 'src/socket.rs'],
   [('motd', 'src/server.rs set_motd, set_full_motd, get_motd'), ('pings', 'src/server.rs listen'), ('client ping', 'src/socket.rs ping')],
   'abstract interpretation of the listener task; provenance of the fields of each pong', NOTE),
 P('P27', 'A datagram concerns the session of its sender only',
   'A listener passes each datagram of a peer that has a session to that session once, whole and unchanged, and to no other, and answers nobody but the sender of a datagram. A client connecting '
   'or pinging sends to the host it was given, uses the datagrams of that host only, and decodes each whole.',
   ['inputs', 'histories'], 'every datagram of every sender, every set of sessions', 'The tests send no foreign datagrams and compare no routing between several peers.',
   ['src/server.rs', 'src/socket.rs'],
   [('routing', 'src/server.rs listen'), ('client receive task', 'src/socket.rs connect_with_version'), ('client ping', 'src/socket.rs ping')],
   'abstract interpretation of the receiving loops; provenance of buffers, lengths and addresses from receive to send', NOTE),
]
NA = {}
