"""Per-property configuration: harness module, runs (bounds) per tier, explanation for the evidence."""
def R(name, bound='', reach=(), **kw):
    known = ('max_steps', 'alloc_limit', 'time', 'threads', 'timeout_ms', 'ite_max', 'z3', 'grace')
    d = dict(name=name, bound=bound, reach=list(reach), params={})
    for k, v in kw.items(): (d if k in known else d['params'])[k] = v
    return d
PROPS = {}
def P(pid, module, explain, outside, runs): PROPS[pid] = dict(module=module, explain=explain, outside=outside, runs=runs)

def q(t, a, b): return a if t == 'quick' else b

P('C01', 'c01', 'Decoder::decode is run on every input within the bounds; a panic, an access outside of an object, recursion deeper than 3000 frames, an allocation over the limit or more instructions than the limit is a violation.',
  'Inputs outside of the listed shapes and lengths.',
  lambda t: [R('all-bytes', 'every byte string of length 0..%d' % q(t, 7, 9), ['value', 'error'], len=q(t, 7, 9), max_steps=3_000_000, alloc_limit=1 << 20, time=q(t, 240, 800)),
             R('nesting', '40 or 200000 nested lists, dictionaries or both in turn, then 2 arbitrary bytes, closed or not', ['error', 'value'], mode=1, alloc_limit=8 << 20),
             R('numbers', 'integers and string lengths of 0..6 arbitrary digits, or 1..5 arbitrary digits after 16 given ones (around the largest usize and far beyond it), at the top level, in a list, as dictionary key', ['error'], mode=2, max_steps=3_000_000, alloc_limit=1 << 20),
             R('large', 'lists, dictionaries, strings, keys and nesting of up to %d entries, 200000 bytes and 60 levels, one byte arbitrary; whole, cut, continued, or one further byte replaced' % q(t, 300, 1000), ['value', 'error'], mode=4, n=q(t, 300, 1000), ite_max=2, max_steps=1_000_000_000, time=q(t, 240, 800)),
             R('again', 'three successive decodes of every byte string of length 0..%d' % q(t, 5, 7), ['again'], mode=3, len=q(t, 5, 7), max_steps=3_000_000, alloc_limit=1 << 20)])
P('C02', 'c02', 'Decoder::decode is run side by side with a reference reader written from the grammar; value, acceptance and number of parsed bytes are compared.',
  'Longer texts than listed; leading zeros and unsorted or repeated dictionary keys are only required not to yield a different value.',
  lambda t: [R('all-bytes', 'every byte string of length 0..%d' % q(t, 6, 8), ['well formed', 'malformed', 'no value'], len=q(t, 6, 8), time=q(t, 240, 800)),
             R('nested', 'every value of depth 2 with up to %d inner nodes, strings of 0..2 arbitrary bytes, integers 0..1200, then 0..1 arbitrary bytes' % q(t, 3, 4), ['well formed'], mode=1, nodes=q(t, 3, 4), time=q(t, 240, 800)),
             R('integers', 'i, 0..6 arbitrary digits or 1..5 arbitrary digits after 16 given ones (around the largest usize), then 2 arbitrary bytes', ['well formed', 'malformed'], mode=2),
             R('strings', 'length prefixes of 1..%d arbitrary digits followed by 0, 1, 2, 9, 10, %d or %d bytes, in and outside of a list' % q(t, (2, 11, 12), (3, 110, 111)), ['well formed', 'malformed'], mode=3, nd=q(t, 2, 3), have=q(t, 12, 111), time=q(t, 240, 800)),
             R('one-byte', 'one arbitrary byte at any position of four sample texts', ['well formed', 'malformed'], mode=4),
             R('large', 'lists, dictionaries, strings, keys and nesting of up to %d entries, 200000 bytes and 60 levels, one byte arbitrary; whole, cut, followed by a byte, or one further byte replaced' % q(t, 300, 1000), ['well formed', 'malformed'], mode=5, n=q(t, 300, 1000), ite_max=2, max_steps=1_000_000_000, time=q(t, 240, 800))])
P('C03', 'c03', 'Encode is run on symbolic values and its output compared with a reference canonical writer and decoded again.',
  'Longer strings and larger collections than listed.',
  lambda t: [R('strings', 'text of 0..2 arbitrary characters, byte strings of 0..4 arbitrary bytes, strings of any length up to %d' % q(t, 130, 1100), ['round trip'], mode=0, long=q(t, 130, 1100), time=q(t, 240, 800)),
             R('integers', 'every value below 2000 and every value within 1000 of a power of ten or close to the largest usize', ['round trip'], mode=1),
             R('lists', 'lists of 0..3 integers, texts, byte strings or lists', ['round trip'], mode=2),
             R('dictionaries', 'dictionaries of 0..%d entries, ASCII keys of 0..2 characters, every iteration order' % q(t, 2, 3), ['round trip'], mode=3, entries=q(t, 2, 3), time=q(t, 240, 800)),
             R('wide-keys', 'dictionaries of 0..2 entries with keys of 0..1 arbitrary characters', ['round trip'], mode=3, entries=2, wide=1),
             R('entries', 'single dictionary entries', ['round trip'], mode=4),
             R('large', 'lists and dictionaries of %d entries, texts and byte strings of up to 2^20 bytes, arbitrary in one place' % q(t, 300, 1000), ['round trip'], mode=5, n=q(t, 300, 1000), max_steps=1_000_000_000, time=q(t, 240, 800))])
P('C07', 'c07', 'Message::new_raw is run on symbolic identifiers and payloads; acceptance and every field are compared with a reference reading of the payload.',
  'Longer payloads and other dictionary shapes than listed; leading zeros and unsorted or repeated keys in extension dictionaries are only required not to crash.',
  lambda t: [R('any', 'every identifier with every payload of length 0..%d' % q(t, 5, 7), ['rejected', 'bitfield', 'plain', 'extension'], len=q(t, 5, 7), time=q(t, 200, 800)),
             R('blocks', 'block and bitfield messages with every payload of length 0..19', ['rejected', 'block', 'bitfield'], mode=1),
             R('handshakes', 'handshakes of 0, 1, 19, 67, 68, 69 arbitrary bytes, and with the protocol name changed at no or any one position', ['rejected', 'handshake'], mode=2),
             R('extension', 'extension dictionaries with table, metadata size, message type and piece present, absent or of another type, table entries of up to 3 digits, far too large or no integer, closed or not, 0..2 bytes of data', ['rejected', 'extension', 'extension table', 'extension data'], mode=3, time=q(t, 200, 800)),
             R('one-byte', 'one arbitrary byte at any position of an extension handshake', ['rejected', 'extension'], mode=4),
             R('large', 'payloads of up to 131080 bytes, extension tables of up to 300 entries, one byte arbitrary; metadata sizes next to every power of two', ['bitfield', 'block', 'extension', 'extension data', 'rejected'], mode=5, max_steps=1_000_000_000, time=q(t, 240, 800))])
P('C08', 'c08', 'The message constructors are run with symbolic fields and their bytes compared with the wire format.', 'Metadata indexes other than listed; peer ids of other than 20 ASCII characters.',
  lambda t: [R('messages', 'requests with any piece, offset and length; metadata requests with any id and every index up to 1200 or next to a power of ten or two; handshakes with any info-hash and peer id of 20 ASCII characters; the extension handshake', ['request', 'interested', 'metadata request', 'handshake', 'extension handshake'])])
P('C23', 'c23', 'A bitfield message with symbolic payload is decoded and compared bit by bit.', 'Longer payloads with more than one arbitrary byte.',
  lambda t: [R('all-bytes', 'every payload of length 0..2', ['decoded', 'empty'], len=2, time=q(t, 200, 800)), R('long', 'payloads of 1..%d bytes, arbitrary at any one position' % q(t, 12, 40), ['decoded'], mode=1, len=q(t, 12, 40), time=q(t, 200, 800)),
             R('large', 'payloads of 256 to %d bytes, two bits arbitrary' % q(t, 20000, 100000), ['decoded'], mode=2, len=q(t, 20000, 100000), max_steps=1_000_000_000, time=q(t, 200, 800))])
P('C04', 'c04', 'Info::from_metainfo and Info::from_bytes are run on symbolic metadata; acceptance is compared with a reference reading, and every accessor of accepted info with the metadata.',
  'Longer names, more files and other piece lengths than listed; metadata with a "files" entry that is no list next to a length, and empty file lists, may be accepted or refused.',
  lambda t: [R('fields', 'each field absent, of another type, or of arbitrary short content; unknown further fields; no dictionary', ['accepted', 'refused', 'written'], mode=0),
             R('from-bytes', 'the same, encoded', ['accepted', 'refused'], mode=0, bytes=1),
             R('lengths', 'every 64-bit length with 12 piece lengths from 0 to the largest integer, 0..%d hashes, complete or not' % q(t, 3, 6), ['accepted', 'refused'], mode=1, hashes=q(t, 3, 6)),
             R('piece-lengths', 'every piece length up to 1023 with every length up to %d' % q(t, 4095, 8191), ['accepted', 'refused', 'written'], mode=2, total=q(t, 4095, 8191), time=q(t, 200, 800)),
             R('files', 'lists of 0..%d files, one of them with any mistyped, missing or odd field, paths of 0..2 components' % q(t, 2, 3), ['accepted', 'refused', 'files accepted', 'written'], mode=3, files=q(t, 2, 3)),
             R('sums', 'lists of 1..3 files of every 64-bit length', ['accepted', 'refused', 'files accepted'], mode=4),
             R('large', 'up to %d pieces, 1000 files, paths of 200 components, names of 5000 bytes, arbitrary or wrong in one place' % q(t, 70000, 200000), ['accepted', 'refused', 'files accepted'], mode=5, many=q(t, 70000, 200000), max_steps=1_000_000_000, time=q(t, 240, 800))])
P('C05', 'c05', 'Canonical metadata of exactly the kept fields is read by Info::from_bytes and encoded again; bytes and SHA-1 are compared (SHA-1 is an injective function here).',
  'Longer names, more files, other piece lengths than listed; metadata with further fields (the client does not keep them).',
  lambda t: [R('metadata', 'single files and lists of 1..%d files, names of 1..%d arbitrary characters, every length in a piece for 6 piece lengths, all piece hashes' % (q(t, 2, 3), q(t, 2, 2)), ['same bytes'], files=q(t, 2, 3), first=q(t, 12, 120)),
             R('large', 'lengths around 2^31 and 2^32, the largest piece length, 1000 pieces', ['same bytes'], large=1, chars=1, files=q(t, 2, 3)),
             R('wide', 'up to 66000 pieces, 400 files, paths of 200 components, names of 5000 bytes, arbitrary in one place', ['same bytes'], large=2, max_steps=1_000_000_000, time=q(t, 240, 800))])
P('C06', 'c06', 'parse_magnet is run on symbolic links; acceptance and info-hash are compared with a reference reading.', 'More arbitrary bytes in one link than listed; lower-case base32 may be refused.',
  lambda t: [R('lengths', 'every byte string of length 0..%d; a link cut to every length 0..79, last byte arbitrary' % q(t, 3, 5), ['refused', 'parsed'], mode=0, len=q(t, 3, 5)),
             R('hexadecimal', '%d neighbouring arbitrary bytes at every place in 40 digits, alone, followed by parameters or by too many digits' % q(t, 3, 4), ['refused', 'parsed'], mode=1, k=q(t, 3, 4)),
             R('base32', '%d neighbouring arbitrary bytes at every place in 32 characters, alone, followed by parameters or by too many characters' % q(t, 3, 5), ['refused', 'parsed base32'], mode=2, k=q(t, 3, 5)),
             R('around', 'one arbitrary byte in the prefix, 0..3 arbitrary bytes after the digits', ['refused', 'parsed'], mode=3),
             R('spread', '%d arbitrary bytes spread over the digits' % q(t, 4, 5), ['refused', 'parsed'], mode=4, k=q(t, 4, 5)),
             R('long', 'parameters of up to 70000 bytes, far too many digits, two arbitrary bytes', ['refused', 'parsed'], mode=5, max_steps=200_000_000)])
P('C15', 'c15', 'The writer is run on symbolic file lists and pieces over a model file system at the level of the C library; every byte written is compared with its place in the torrent.', 'Torrents in which two files have the same path; more files than listed.',
  lambda t: [R('small', '1..%d files of 0..%d bytes, piece lengths 1..6, pieces 0..4, one write shortened to any length, one interrupted' % q(t, (3, 5), (4, 6)), ['written', 'several files', 'not the first piece'], mode=0, files=q(t, 3, 4), len=q(t, 5, 6), pl=6, idx=5, intr=1, time=q(t, 200, 800)),
             R('large', '1..2 files of every length up to 2^40, every piece for piece lengths %s' % q(t, '2 and 4', '1 to 4'), ['written', 'several files', 'not the first piece'], mode=1, pl=q(t, 2, 4), time=q(t, 200, 800)),
             R('wide', 'pieces of up to 65536 bytes, %d files, one write shortened in one of 3 ways or none' % q(t, 100, 300), ['written', 'not the first piece'], mode=3, files=q(t, 100, 300), max_steps=1_000_000_000, time=q(t, 200, 800)),
             R('failures', '1..3 files of 0..2 bytes in up to 3 folders, piece lengths 1..4, no or one failing call', ['written', 'failed', 'several files'], mode=2)])
P('C16', 'c16', 'Metadata with symbolic names and paths is read and, if accepted, its first piece is written to a model file system; everything created or modified is compared with the working directory.', 'Symbolic links that exist in the download directory already; more arbitrary bytes in one name than listed.',
  lambda t: [R('name', 'single files: names of one of 9 beginnings, 0..%d arbitrary bytes, and one of 5 endings' % q(t, 2, 3), ['refused', 'written'], mode=0, bytes=q(t, 2, 3)),
             R('paths', '1..2 files: paths of 0..%d components of 10 kinds or of up to %d arbitrary bytes' % q(t, (2, 2), (3, 3)), ['refused', 'written'], mode=1, bytes=q(t, 2, 3), comps=q(t, 2, 3), time=q(t, 200, 800)),
             R('odd', '33 names that some layer may take for "..", a separator or a folder, alone, repeated, in and before others', ['refused', 'written'], mode=2)])
P('C21', 'c21', 'Info::save and Info::from_file are run on symbolic info and on damaged files in a model file system.', 'Longer names, more files and more arbitrary bytes in one file than listed.',
  lambda t: [R('stored', 'any one hash byte, lengths up to 99 or around 2^14 and 2^32, over an older file or not', ['reloaded'], mode=0, ite_max=4),
             R('names', 'names and paths with %d characters out of ASCII and three windows of 64 two-, three- and four-byte characters, over an older file or not' % q(t, 1, 2), ['reloaded'], mode=0, names=1, ite_max=4, chars=q(t, 1, 2), time=q(t, 200, 800)),
             R('cut', 'four kinds of info cut at every length, missing, a folder in its place', ['cut', 'missing'], mode=1),
             R('one-byte', 'any byte of %d stored files replaced by any other (of the list of hash bytes, only the first and last few)' % q(t, 1, 4), ['accepted', 'refused'], mode=2, ite_max=4, kinds=q(t, 1, 4), time=q(t, 200, 800)),
             R('values', 'well-formed files with unusable, unsafe, mistyped, missing and overflowing fields', ['accepted', 'refused'], mode=3, ite_max=4),
             R('large', '%d hashes, 200 files or a name of 241 characters, arbitrary in one place' % q(t, 1000, 4000), ['reloaded'], mode=5, hashes=q(t, 1000, 4000), ite_max=4, max_steps=1_000_000_000, time=q(t, 200, 800)),
             R('failures', 'one failing call while storing', ['stored', 'not stored'], mode=4)])
P('C09', 'c09', 'Peer::read_message is run over a model of TCP at the level of the C library, with symbolic payloads, cuts and arrival times.', 'More messages and cuts than listed; connections on which the client takes nothing.',
  lambda t: [R('messages', 'sequences of 1..%d messages of four kinds, cut at up to %d places, each part there at once, one receive call later, or not during the call' % q(t, (2, 2), (3, 2)), ['all read'], mode=0, msgs=q(t, 2, 3), cuts=2, kinds=4, time=q(t, 200, 800)),
             R('handshake', 'a handshake and two messages, cut anywhere and once more close behind', ['all read'], mode=1, delays=q(t, 2, 4), near=q(t, 2, 5), time=q(t, 200, 800)),
             R('block', 'a block of %d bytes and another message, cut around its start and end' % q(t, 300, 16384), ['all read'], mode=2, block=q(t, 300, 16384), time=q(t, 200, 800)),
             R('prefix', 'every length prefix and identifier, followed by 0..%d arbitrary bytes, the end, a reset or silence' % q(t, 2, 4), ['message', 'no message'], mode=3, rests=q(t, 2, 3), missing=q(t, 2, 3), alloc_limit=1 << 18, time=q(t, 200, 800)),
             R('long', 'messages of 40000 and 100000 bytes between others, cut at 7 places', ['all read'], mode=5, delays=q(t, 2, 3), max_steps=1_000_000_000, time=q(t, 240, 800)),
             R('ends', 'messages and handshakes cut short by the end of the stream or a reset', ['ended'], mode=4)])
P('C10', 'c10', 'get_info and download are run over a model of TCP against a peer with a symbolic script; every byte the client sends is read by an independent reader that knows which messages the client has taken off the stream.', 'Longer scripts than listed; messages that arrive in pieces (C09).',
  lambda t: [R('greetings', 'a handshake for the torrent, for another one (any one byte), none, late, cut short, of another protocol or after another message; then 0..%d messages of nine kinds; then silence or the end' % q(t, 2, 3), ['refused', 'requested'], msgs=q(t, 2, 3), delays=q(t, 2, 4), time=q(t, 200, 800)),
             R('messages', 'a handshake for the torrent, 0..%d messages of nine kinds, silence or the end' % q(t, 3, 4), ['refused', 'requested'], greetings=1, msgs=q(t, 3, 4), delays=1, time=q(t, 200, 800)),
             R('long', 'a handshake for the torrent, 0..%d messages of four kinds' % q(t, 5, 6), ['refused', 'requested'], greetings=1, msgs=q(t, 5, 6), delays=1, few=1, time=q(t, 240, 800)),
             R('pauses', 'the same with 0..%d messages that arrive at once, later or never' % q(t, 2, 3), ['refused', 'requested', 'not ready in time'], greetings=1, msgs=q(t, 2, 3), delays=2, waits=3, time=q(t, 200, 800))])
P('C11', 'c11', 'download is run over a model of TCP against a peer that answers in symbolic ways; every request the client sends is compared with the place and size of the piece.', 'More than 5 pieces; more answers than listed.',
  lambda t: [R('inside', '1..5 pieces of any length in 8 windows of 64 (from 1 to 2^32-1), last piece of any length in 4 windows of 30 to 64, every piece, one or two files, %d odd answers' % q(t, 2, 3), ['requests', 'not the first piece', 'several requests'], mode=0, odd=q(t, 2, 3), answers=q(t, 3, 5), time=q(t, 240, 800)),
             R('tiling', 'piece lengths of 1 to 20 and next to multiples of 16384 up to %d, 1..2 pieces, 5 lengths of the last, every piece, each answer at once or late' % q(t, 32769, 65537), ['covered', 'several blocks'], mode=1, blocks=q(t, 3, 5), max_steps=200_000_000, time=q(t, 240, 800)),
             R('many', 'torrents of 70001 pieces, 13 of them', ['late', 'last'], mode=2, max_steps=1_000_000_000, time=q(t, 240, 800))])
P('C12', 'c12', 'download and the connection actor are run over a model of TCP against a peer that answers in symbolic ways; SHA-1 is an injective function here.', 'More than 2 pieces, pieces of more than 2 blocks, and more odd answers than listed.',
  lambda t: [R('answers', '1..2 pieces of 5 to 40000 bytes, also of equal bytes, every piece; %d answers of 15 kinds, then right ones' % q(t, 1, 2), ['delivered', 'refused', 'several blocks'], odd=q(t, 1, 2), sizes=8, max_steps=200_000_000, time=q(t, 240, 800)),
             R('second', 'the same with only the second answer odd', ['delivered', 'refused', 'several blocks'], at=2, sizes=8, max_steps=200_000_000, time=q(t, 240, 800)),
             R('pairs', 'pieces of 7 and 20 bytes; %d answers of 15 kinds' % q(t, 3, 4), ['delivered', 'refused'], odd=q(t, 3, 4), sizes=2, max_steps=200_000_000, time=q(t, 240, 800)),
             R('reports', 'the same through the connection actor, which has been used before or not, pieces of up to 16384 bytes, one answer', ['delivered', 'refused', 'used before'], actor=1, odd=1, before=1, sizes=q(t, 3, 6), max_steps=200_000_000, time=q(t, 240, 800))])
P('C13', 'c13', 'get_info and the torrent actor are run over a model of TCP and of the file system against a peer that answers metadata requests in symbolic ways; SHA-1 is an injective function here.', 'Metadata of more than two pieces; more odd answers than listed.',
  lambda t: [R('answers', 'metadata of 63 or 16393 bytes, or that is unusable although its hash is right; the first %d answers of 13 kinds, among them any one byte of the first and last %d replaced' % q(t, (1, 12), (2, 40)), ['accepted', 'refused'], mode=0, odd=q(t, 1, 2), places=q(t, 12, 40), max_steps=200_000_000, time=q(t, 240, 800)),
             R('stored', 'the same through the torrent actor, with what it keeps and stores', ['accepted', 'refused'], mode=1, metas=3, places=q(t, 3, 12), max_steps=200_000_000, ite_max=4, time=q(t, 240, 800))])
P('C14', 'c13', 'get_info is run over a model of TCP against a peer that offers metadata in symbolic ways; every request is compared with what the peer announced.', 'Metadata of more pieces than listed put together.',
  lambda t: [R('pieces', 'every extension id, sizes next to multiples of 16384 up to %d pieces, the metadata cut at any of %d places' % q(t, (3, 12), (4, 30)), ['put together', 'several pieces'], mode=2, pieces=q(t, 3, 4), cuts=q(t, 12, 30), time=q(t, 240, 800)),
             R('full', 'metadata of 32768 bytes in two pieces, the first answer of 13 kinds', ['accepted', 'refused'], mode=0, metas=5, from_meta=3, places=1, max_steps=200_000_000, time=q(t, 240, 800)),
             R('many', 'metadata of 5 to 131 pieces of arbitrary extension id', ['put together'], mode=4, odd=0, sizes=q(t, 4, 5), max_steps=4_000_000_000, time=q(t, 240, 800)),
             R('refusals', 'the extension not offered, with id 0, 259 or no integer; requests refused, unanswered or answered too seldom; sizes up to the largest integer', ['not asked', 'no metadata'], mode=3, time=q(t, 240, 800))])
P('C17', 'c17', 'The torrent actor is run over a model of the actor system (mailboxes are queues, handlers run one at a time) with symbolic histories of found peers and finished downloads; every order it sends is compared with what is waiting, assigned and written.', 'Longer histories and more pieces than listed; histories with ten peers or fewer (downloads begin with the eleventh).',
  lambda t: [R('histories', 'torrents of 1, 3, 5, 6%s pieces; metadata from the first, fifth or fourteenth peer; 3 events, each a success or failure of one of five running downloads or a found peer, then successes' % q(t, ' or 8', ', 8, 7, 4, 2 or 11'), ['complete', 'failed', 'peer found later'], torrents=q(t, 5, 9), events=3, time=q(t, 240, 800))] + q(t, [], [
             R('long', 'torrents of 8 or 6 pieces, 4 events', ['complete', 'failed', 'peer found later'], torrents=2, events=4, time=800), R('small', 'torrents of 3 or 1 pieces, 6 events', ['complete', 'failed'], torrents=2, events=6, **{'from': 3}, time=800)]) + [
             R('many', 'torrents of 64 to 600 pieces; one or two failures of any download at five times', ['complete', 'failed'], mode=4, torrents=q(t, 5, 6), max_steps=4_000_000_000, ite_max=4, time=q(t, 240, 800)),
             R('files', 'torrents of 1..%d pieces in one or two files, downloaded by the connection actor from peers over a model of TCP and written by the writer actor to a model file system; up to %d downloads fail in one of four ways, finished by one of two workers' % q(t, (3, 2), (4, 3)), ['downloaded', 'after failures'], mode=1, pieces=q(t, 3, 4), odd=q(t, 2, 3), max_steps=200_000_000, ite_max=4, time=q(t, 240, 800))])
P('C18', 'c17', 'The torrent actor is run over a model of the actor system with symbolic histories and symbolic choices among the peers; the peer of every order is compared with the failures counted by the harness.', 'Longer histories than listed; of the orders that shuffling may yield, only rotations of the list and of the reversed list.',
  lambda t: [R('chosen', '11 peers, after 0..%d failures: a success or failure of one of %d downloads with every choice of peer' % q(t, (47, 2), (55, 5)), ['fewer than two', 'fewer than four', 'any', 'kept busy'], mode=2, workers=q(t, 2, 5), failures=q(t, 48, 56), time=q(t, 240, 800)),
             R('few', '3 peers found again and again, after 0..%d failures: %d successes or failures with every choice of peer' % q(t, (13, 2), (16, 3)), ['fewer than two', 'fewer than four', 'any', 'kept busy'], mode=3, failures=q(t, 14, 17), events=q(t, 2, 3), time=q(t, 240, 800)),
             R('tired', '3 peers, after 12 to 800 failures; then a peer found, and %d successes or failures with every choice of peer' % q(t, 1, 2), ['fewer than two', 'kept busy'], mode=5, events=q(t, 1, 2), max_steps=4_000_000_000, ite_max=4, time=q(t, 240, 800))]
    + q(t, [], [R('two', '14 peers, after 0..47 failures, 4 in each step: two successes or failures of one of 2 downloads with every choice of peer', ['fewer than two', 'any'], mode=2, late=1, events=2, step=4, failures=12, time=800)]))
P('C19', 'c19', 'get_peers_by_tracker is run over a model of UDP in which every packet the client waits for may be lost, replaced by an error or by other packets; every packet the client sends is compared with the layout of the protocol.', 'More odd packets and peers than listed; the order in which duplicates of late packets may arrive.',
  lambda t: [R('packets', 'every info-hash and connection id; up to %d packets lost, errors, of any head and 9 sizes, cut replies of any size up to 33, or error messages' % q(t, 2, 3), ['peers', 'error', 'one peer'], odd=q(t, 2, 3), time=q(t, 240, 800)),
             R('sizes', 'replies of 0 to 10000 peers, two of their bytes arbitrary', ['peers'], mode=1, max_steps=200_000_000, time=q(t, 240, 800)),
             R('errors', 'up to %d calls that fail, one lost or odd packet' % q(t, 3, 6), ['peers', 'error'], faults=q(t, 3, 6), odd=1, time=q(t, 240, 800)),
             R('twice', 'two announces, for one or two torrents with one or two trackers%s' % q(t, '', ', one packet lost or odd in the first'), ['twice', 'peers'], mode=4, odd=q(t, 0, 1), time=q(t, 240, 800)),
             R('endless', 'a tracker that sends other packets for ever', ['error'], mode=2),
             R('addresses', 'tracker addresses of nine forms', ['peers', 'no address'], mode=3)])
P('C20', 'c20', 'get_peers_by_tracker is run against a model of the HTTP client that hands every request to a symbolic server; the request is read by an independent reader and the peers compared with a reference reading of the reply.', 'Requests and replies below the HTTP client (headers, redirects, encodings); more arbitrary bytes in one reply than listed.',
  lambda t: [R('requests', 'four tracker addresses, info-hashes with %d neighbouring arbitrary bytes at any place' % q(t, 2, 3), ['request', 'peers'], k=q(t, 2, 3), time=q(t, 240, 800)),
             R('peers', 'peer strings of 0..%d bytes, %s arbitrary, with and without further entries' % q(t, (25, 'any one'), (49, 'any two neighbouring')), ['peers'], mode=1, bytes=q(t, 26, 50), two=q(t, 0, 1), time=q(t, 240, 800)),
             R('bodies', 'every body of 0..%d bytes, a reply with any one byte arbitrary or cut at any length, eleven odd replies' % q(t, 6, 7), ['peers', 'error'], mode=2, len=q(t, 6, 7), max_steps=3_000_000, alloc_limit=1 << 20, time=q(t, 240, 800)),
             R('twice', 'two announces, for one or two torrents with one or two trackers', ['twice', 'peers', 'error'], mode=4, time=q(t, 240, 800)),
             R('errors', '0 to %d peers; status codes, connection errors, bodies that break off' % q(t, 1000, 20000), ['peers', 'error'], mode=3, sizes=q(t, 5, 6), max_steps=200_000_000, time=q(t, 240, 800))])
P('C22', 'c22', 'The request handler add_magnet is run on symbolic request bodies over a model of the actor system; answer, started torrents and registrations are compared with a reference reading of the link.', 'Bodies that are no UTF-8 text and requests to other addresses (answered by the HTTP framework); lower-case base32 may be refused.',
  lambda t: [R('single', 'every text of 0..%d bytes; links with %d neighbouring arbitrary bytes at every place of their digits, cut to every length, with one arbitrary byte in the prefix; eight odd texts' % q(t, (3, 2), (5, 3)), ['started', 'refused'], mode=0, len=q(t, 3, 5), k=q(t, 2, 3), time=q(t, 240, 800)),
             R('several', '%d requests of five kinds in any order, or %d valid ones' % q(t, (3, 300), (4, 900)), ['started', 'refused'], mode=1, requests=q(t, 3, 4), many=q(t, 300, 900), max_steps=200_000_000, time=q(t, 240, 800)),
             R('again', 'the same magnet up to %d times' % q(t, 20, 60), ['started'], mode=2, many=q(t, 20, 60), max_steps=200_000_000, time=q(t, 240, 800))])
P('C24', 'c24', 'The tracker actors are run over models of the actor system, of UDP, of the HTTP client and of TCP connections with symbolic answers and outcomes; what reaches the torrents is compared with the peers that accepted a connection.', 'Answers in which the same peer is listed twice; interleavings of two announces of the same tracker actor.',
  lambda t: [R('answers', '%d registrations of two torrents with a UDP or HTTP tracker that answers with 0..%d peers, not at all, or with something else; every peer accepts, refuses or does not answer' % q(t, (2, 2), (2, 3)), ['announced', 'not reachable', 'no answer', 'over HTTP', 'over UDP'], peers=q(t, 3, 4), bytes=0, time=q(t, 240, 800)),
             R('one', 'one registration, 0..%d peers, one byte of the last arbitrary' % q(t, 3, 4), ['announced', 'not reachable'], peers=q(t, 4, 5), rounds=1, outcomes=4, time=q(t, 240, 800)),
             R('many', 'answers of 17 to 1000 peers', ['announced'], mode=1, sizes=5, max_steps=200_000_000, time=q(t, 240, 800)),
             R('trackers', '1..%d torrents registered with all trackers, any two of which answer' % q(t, 2, 3), ['passed on', 'announced', 'no answer'], mode=2, torrents=q(t, 2, 3), max_steps=200_000_000, time=q(t, 240, 800)),
             R('burst', '40 torrents registered at once with one tracker or all, one of four unanswered', ['many at once', 'announced', 'no answer'], mode=4, max_steps=200_000_000, time=q(t, 240, 800)),
             R('endpoints', 'texts of 0..%d bytes, ports of 0..%d characters, six odd addresses' % q(t, (3, 3), (4, 5)), ['no address', 'tried'], mode=3, len=q(t, 3, 5), time=q(t, 240, 800))])
NA = {}
