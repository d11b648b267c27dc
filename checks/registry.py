CHECKS = {
    'P01': ('No datagram and no API call makes the library panic', 'p01_panics', 'run'),
    'P02': ('Decoders read back what encoders wrote', 'codec', 'roundtrip'),
    'P03': ('Encoders write the published wire layout', 'codec', 'wire'),
    'P05': ('Message datagrams respect the negotiated MTU', 'sendq', 'sizes'),
    'P08': ('Ordered messages are delivered in order, once, without gaps', 'arq', 'ordered'),
    'P09': ('Sequenced messages are delivered newest-only', 'arq', 'sequenced'),
    'P13': ('Public calls do what they report', 'conn', 'api'),
    'P19': ('Fragmented messages are cut and reassembled exactly', 'sendq', 'fragments'),
    'P20': ('Loss simulation drops only when enabled', 'flow', 'loss'),
    'P21': ('Log output is gated by its bit of the log switch', 'flow', 'logging'),
    'P22': ('No blocking call runs on the async runtime', 'flow', 'blocking'),
    'P23': ('The library contains no unsafe code', 'flow', 'unsafe'),
    'P29': ('Frames are numbered without gap or reuse', 'sendq', 'numbering'),
    'P16': ('Reliable messages stay queued, and are resent, until acknowledged', 'kept', 'run'),
    'P04': ('What does not decode has no effect on a connection', 'tasks', 'P04'),
    'P10': ('Datagrams that are due are sent to the peer', 'tasks', 'P10'),
    'P11': ('Received sequence numbers are acknowledged, missing ones asked for', 'tasks', 'P11'),
    'P12': ('Received ACKs and NACKs are applied to exactly their numbers', 'tasks', 'P12'),
    'P14': ('Closing ends a connection completely', 'tasks', 'P14'),
    'P15': ('A connection silent for 60 seconds is closed, a live one is not', 'tasks', 'P15'),
    'P24': ('Dropping a connection or listener closes it', 'tasks', 'P24'),
    'P25': ('Connected requests are answered and echo the request', 'tasks', 'P25'),
    'P26': ('Received messages reach the application once and unchanged', 'tasks', 'P26'),
    'P07': ('A listener keeps one session per peer and hands each out once', 'server', 'P07'),
    'P17': ('The handshake agrees on version, MTU and address', 'server', 'P17'),
    'P18': ('A ping is answered with the current motd of the listener', 'server', 'P18'),
    'P27': ('A datagram concerns the session of its sender only', 'server', 'P27'),
}
