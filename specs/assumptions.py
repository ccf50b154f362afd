"""What the proofs take for granted."""
COMMON = [
    'the exporter transcribes clang 18\'s typed AST of each definition completely (a construct it or the verifier does not know stops the proof)',
    'the verifier\'s semantics of C++ statements and expressions (vc/interp.py, vc/loops.py) and z3 are right',
    'machine integers are exact bit vectors of their C++ widths (wraparound, truncation, sign); signed overflow is an obligation',
    'memory allocation succeeds; containers and views hold at most 2^32 elements',
    'ser4cpp and exe4cpp are not installed here: their headers are the stand-ins under shim/, their behaviour the contracts in vc/lib.py',
]
STRAND = ['an action posted to the executor, or started as a timer that is not cancelled before it is due, is run later, once, never inside the call that hands it over; '
          'the actions of one channel and its connection events run one at a time (strand), posted ones in the order posted',
          'user handlers do not throw and do not call back into the channel except through its public functions (which post)',
          'std::function, shared_ptr and unique_ptr behave as the standard says; a lambda owns exactly what it captures by value']
CLIENT = STRAND + ['ITcpConnection::send and set_listener do not call the listener inside the call (the contract of C21)',
                   'a valid message frames into 8 to 260 bytes (C01, C03)',
                   'the action of a timer that became due is not delayed while 65536 further requests are accepted; a channel accepts less than 2^48 requests',
                   'timeout actions are made by actions and functions that are each verified in an arbitrary state satisfying the invariant, so one level of nesting stands for all (induction on the history)',
                   'create_session and send_request run on a user thread: their reads of m_is_shutdown are not synchronised with the strand']
ASIO = ['asio: an asynchronous operation reads or writes exactly the view it is given, only until its handler has run, runs its handler later (never inside the call), at most once, with the outcome '
        'the operation had; resolving without an error gives at least one endpoint; closing or cancelling a socket ends its pending operations (their handlers run with an error)',
        'a handler made by a function is judged in an arbitrary later state of its object that satisfies the invariant; that stands for every later handler (induction on the history)']
SERVER = STRAND + ['sessions and listeners registered are not null and do not throw']
BY_PROP = {
    'C15': SERVER + ['the response of a session encodes into at most 253 bytes (what the eight response types allow within the protocol limits)',
                     'the session decides the answer: its on_request is any function',
                     'on_mbap runs in the strand of the channel (its connections run in that strand)'],
    'C16': SERVER + ASIO + ['fewer than 2^31 connections are accepted at a time', 'only connections the server made tell it that they ended'],
    'C20': ASIO + ['between taking and releasing the lock of the manager its lists are as another thread left them: they are arbitrary whenever the lock is taken',
                   'std::thread, std::mutex and std::lock_guard behave as the standard says; the io service runs the actions handed to it on the threads that call run',
                   'a client channel is not told to shut down by its user as well (a second shutdown of a channel is harmless: C12)'],
    'C21': ASIO + ['a listener that is called does not call back into the connection before it returns, except through the functions of the connection, each of which is under contract',
                   'asio::async_write transmits all of the view or ends with an error (async_send and async_write_some, which may transmit a part, are not accepted for a transmission)',
                   'what a closed connection had under way has ended before it is connected again (its handlers are queued at the closing, connecting again takes several rounds of the io service)'],
    'C24': SERVER,
    'C12': CLIENT, 'C13': CLIENT, 'C14': CLIENT,
    'C18': STRAND + ['the channel answers each sending at most once, a timer action runs at most once', 'less than 2^62 starts of one scheduled request'],
    'C19': STRAND + ['the decoders are used through their contracts (C06)'],
    'C11': ['a user of the database reaches it only through its public functions'],
}
BOUNDED = {}


def trusted(res, prop):
    return ['library contracts (assumed): ' + ', '.join(sorted({x for r in res for x in r['lib']})), 'vc/*.py (verification condition generator)', 'z3', 'clang 18 front end']


def assumed(prop): return COMMON + BY_PROP.get(prop, [])
