#!/usr/bin/env python3
"""Single source of properties.jsonl (regenerate with: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Decoding untrusted bencode is total and bounded',
 'Decoding any byte string as bencode terminates with either a value or an error: it never panics, never reads outside the input, never recurses without bound and never allocates memory out of proportion to the input. Truncated, mistyped and oversized-length inputs are errors, not crashes.',
 ['inputs'],'every byte string (torrent metadata, tracker replies and extension messages are all attacker-supplied)',
 'The unit tests decode a dozen well-formed literals and a few bad ones; a panic or endless loop needs one particular malformed byte string.',
 ['src/bencode/decode.rs'],[('Decoder cursor and recursive descent','src/bencode/decode.rs')],['result of decoding','panic / hang / allocation'],
 [('current','read cursor into the input','src/bencode/decode.rs')])
p('C02','Bencode decoding agrees with the bencode grammar',
 'For every byte string beginning with a well-formed bencode value built from non-negative integers, byte strings, lists and dictionaries with text keys, decoding returns exactly that value, and the number of bytes reported as parsed is exactly the length of that value. A byte string that starts a value but is not well formed is reported as an error, never as a different value.',
 ['inputs'],'every byte string, against an independent reference grammar',
 'Tests compare a few literals; off-by-one lengths, missing terminators and nesting mistakes only show on particular inputs.',
 ['src/bencode/decode.rs','src/bencode/metainfo.rs'],[('parse_integer/parse_string/parse_list/parse_dictionary','src/bencode/decode.rs')],['decoded value','count of parsed bytes'])
p('C03','Bencode encoding is canonical and decodes back',
 'Encoding an integer, text, byte string, list or dictionary yields canonical bencode (lengths counted in bytes, dictionary keys sorted by their bytes, no leading zeros), and decoding that encoding returns the original value and consumes every byte. This holds for every value, including empty ones, non-ASCII text and any dictionary iteration order.',
 ['inputs'],'every value of the encodable types, every iteration order of the unordered dictionary',
 'Tests encode a handful of ASCII literals and never decode the result.',
 ['src/bencode/encode.rs','src/bencode/decode.rs'],[('Encode implementations and encode_dict_entry','src/bencode/encode.rs')],['encoded bytes','decode(encode(v))'])
p('C04','Torrent metadata is accepted only if usable, and faithfully',
 'When metadata is accepted as torrent info, its name, piece length, piece hashes, total length and ordered file list (paths and lengths) are exactly those in the metadata, with no file silently left out. Metadata that no download could use (zero piece length, neither a length nor files, lengths that overflow, or a number of piece hashes that does not match the total length) is refused with an error, and nothing done with accepted info can panic. Well-formed metadata that a download can use is accepted.',
 ['inputs'],'every metadata dictionary, well formed or hostile',
 'Tests build two well-formed infos; malformed entries and inconsistent sizes are never tried.',
 ['src/torrent/info.rs','src/torrent/file.rs'],[('Info::from_metainfo, File::from_metainfo','src/torrent/info.rs')],['accepted info: files, lengths, piece hashes','error'])
p('C05','The info-hash of accepted metadata is that of its bytes',
 'For any metadata that consists of exactly the fields the client keeps (name, piece length, pieces and either length or files), re-encoding the accepted info gives back the original bytes, so that the info-hash the client computes and uses in handshakes equals the hash of the original metadata.',
 ['inputs'],'every canonical metadata dictionary (single and multi file, non-ASCII names, empty or binary piece fields)',
 'One literal torrent is hashed in the tests; key order, text length units and optional fields matter only for other torrents.',
 ['src/torrent/info.rs','src/torrent/file.rs','src/bencode/encode.rs'],[('Encode for Info/File, compute_info_hash','src/torrent/info.rs')],['re-encoded bytes','info hash'])
p('C06','Magnet links are parsed exactly or refused',
 'Parsing any byte string as a magnet link never panics. A link of the form magnet:?xt=urn:btih: followed by 40 hexadecimal digits (either case), alone or followed by further parameters, yields exactly the 20 bytes those digits denote; a link with 32 base32 characters in that place yields exactly the 20 bytes those characters denote; anything else is an error.',
 ['inputs'],'every byte string submitted as a magnet link',
 'Three literal links are tested; boundary lengths, bad digits and missing parameters are not.',
 ['src/torrent/magnet.rs'],[('parse_magnet, hex_decode','src/torrent/magnet.rs')],['info hash bytes or error'])
p('C07','Peer messages of any content are handled without crashing',
 'Whatever identifier and payload a peer sends, interpreting the message never panics; a message whose payload is too short for its type or not decodable is rejected. A valid message yields exactly the fields carried in the payload: handshake fields, block payload, bitfield bytes, extension table, metadata size, message type and trailing data.',
 ['inputs'],'every message identifier and payload a peer can send',
 'Tests build well-formed messages only.',
 ['src/messages/mod.rs','src/messages/extension.rs','src/messages/handshake.rs','src/messages/request.rs','src/messages/bitfield.rs'],[('Message::new_raw and the per-type from_bytes','src/messages')],['parsed message or rejection'])
p('C08','Every message the client sends is well formed',
 'Every message the client sends follows the BitTorrent wire format for all field values: the four-byte length prefix equals the number of bytes that follow, the identifier is right, and each field (piece index, block offset, block length, metadata piece index, info-hash, peer id) appears in full at its position; the handshake is the 68-byte form advertising the extension protocol.',
 ['inputs'],'all values of piece index, offset, length, extension id, metadata index, info-hash and peer id',
 'Tests check one literal per message.',
 ['src/messages/mod.rs','src/messages/request.rs','src/messages/handshake.rs','src/messages/extension.rs','src/peer/stream.rs'],[('new_request/new_metadata/new_handshake/new_interested, as_bytes, send_metadata_handshake_request','src/messages/mod.rs')],['bytes written to the socket'])
p('C09','Message framing survives any segmentation of the stream',
 'However the bytes of a peer connection are split across reads and interleaved with timeouts, the sequence of messages the client takes off the stream is the sequence the peer sent: none lost, duplicated, merged or misaligned. Keep-alive messages are skipped, an end of stream or error never yields a message, and a length prefix from the peer cannot make the client crash or reserve memory far beyond the largest legal message.',
 ['inputs','schedules','fault_sequences'],'every byte stream, every segmentation into reads, timeouts, end of stream',
 'The mock stream of the tests always delivers whole messages at once.',
 ['src/peer/stream.rs','src/peer/mod.rs'],[('read_stream, peek_and_read, has_messages','src/peer/stream.rs')],['sequence of (identifier, payload) read','socket read position'])
p('C10','No requests before a verified handshake and an unchoke',
 'The client first sends exactly one handshake carrying the torrent info-hash, and requests metadata or blocks only after the peer answered with a handshake for the same info-hash, told the client it is unchoked and announced its metadata size. A peer that presents another info-hash, never unchokes or never announces a metadata size ends the session with an error without any request having been sent.',
 ['inputs','histories'],'every sequence of messages, timeouts and failures a peer can produce',
 'Unit tests apply single messages to a peer object; whole sessions are never run.',
 ['src/peer/manager.rs','src/peer/mod.rs'],[('init_peer, apply_message, is_active/is_ready','src/peer/manager.rs')],['bytes sent on the connection','result of the session'],
 [('active/choked/metadata_size/extensions','session state','src/peer/mod.rs')])
p('C11','Block requests tile exactly the piece being downloaded',
 'Whatever the peer sends while a piece is downloaded, each block request names that piece, lies inside it and inside the torrent and is at most 16384 bytes long; with a peer that answers each request once, consecutive requests start where the received data ends and together cover the piece exactly once, including a shorter last piece and piece lengths that are not a multiple of 16384.',
 ['inputs','histories'],'all piece lengths, piece indexes, total lengths and message histories',
 'Tests use one geometry in which every division is exact.',
 ['src/peer/download/block.rs','src/peer/download/mod.rs','src/peer/buffer.rs'],[('next_block/get_block_size/real_piece_length','src/peer/download')],['request messages written to the connection'])
p('C12','Only hash-verified pieces are delivered',
 'A piece download succeeds only with data whose SHA-1 equals the hash listed for exactly that piece index; whatever the peer sends (wrong, short, long, reordered or repeated blocks, chokes, silence), every other outcome is an error and no data is handed on. When the peer answers each request correctly, the download succeeds and returns exactly the piece.',
 ['inputs','histories'],'every peer behaviour, every piece index',
 'No test runs a download against a misbehaving peer.',
 ['src/peer/manager.rs','src/torrent/info.rs','src/peer/buffer.rs'],[('verify_piece before returning','src/peer/manager.rs')],['result of the piece download','messages to the torrent coordinator'])
p('C13','Metadata is accepted only if it matches the info-hash',
 'Metadata obtained from a peer is accepted as the torrent description only if the SHA-1 of the received bytes equals the info-hash that was asked for; with any other bytes the result is an error and nothing is stored or used.',
 ['inputs','histories'],'every metadata byte string a peer can serve',
 'No test serves metadata from a peer.',
 ['src/peer/manager.rs'],[('get_info','src/peer/manager.rs')],['returned info','stored info file'])
p('C14','Metadata is requested piece by piece and reassembled in order',
 'Metadata pieces are requested with the extension id the peer announced, in order from zero, each index below the number of 16384-byte pieces implied by the announced size, and the result is the concatenation of the received piece payloads in order. A peer that offers no metadata extension or rejects a request leads to an error, not to a crash or an endless wait.',
 ['inputs','histories'],'all announced sizes and extension ids, all message histories',
 'Tests drive the buffer with canned messages; sizes and ids are never varied.',
 ['src/peer/download/info.rs','src/peer/download/mod.rs','src/peer/buffer.rs','src/messages/extension.rs'],[('next_piece, MessageBuffer','src/peer/buffer.rs')],['metadata requests on the connection','assembled metadata bytes'])
p('C15','Pieces land at the right place in the right files',
 'Writing a piece stores every byte of it at the position its offset in the torrent determines: the concatenation of the files in order, each with its declared length, is the torrent. No byte outside the piece is touched, no byte of it is dropped (even when the operating system writes less than asked), and file sizes never exceed the declared lengths.',
 ['inputs','configurations','fault_sequences'],'all file layouts (including empty files and pieces spanning many files), piece indexes and lengths, short writes',
 'Tests compare three small layouts and one write.',
 ['src/torrent/writer.rs'],[('get_file_writers, FileParser, write_to_filesystem','src/torrent/writer.rs')],['positioned writes issued per file'])
p('C16','Downloads never leave the download directory',
 'Whatever names and paths torrent metadata contains (empty components, dots, parent references, absolute paths, embedded separators), writing a piece never creates or modifies anything outside the working directory tree; such metadata or files are refused or confined.',
 ['inputs'],'every file name and path component in torrent metadata',
 'Tests use benign names only.',
 ['src/torrent/writer.rs','src/torrent/info.rs','src/torrent/file.rs'],[('path construction before open','src/torrent/writer.rs')],['paths opened or created'])
p('C17','Every piece is fetched, none forgotten or written twice',
 'Over every history of discovered peers, successful and failed downloads, each piece of the torrent is at all times exactly one of: waiting, assigned to one download, or written. A failed piece becomes available again, a successful one is handed to the writer exactly once with its own index and data, never-valid indexes are never requested, and once downloading has begun, as long as downloads finish the work never stalls while pieces wait.',
 ['histories','schedules'],'all interleavings of peer discoveries and download outcomes',
 'Tests only exercise the queue in isolation.',
 ['src/actors/torrent.rs','src/peer/piece_pool.rs','src/actors/connection.rs','src/actors/writer.rs'],[('PeerFound/PieceDownloadSuccessfull/PieceDownloadFailed handlers','src/actors/torrent.rs')],['messages to the download and writer pools'],
 [('piece_available_pool','pieces waiting','src/peer/piece_pool.rs')])
p('C18','Download work goes to known, least-failing peers',
 'A piece is requested only from a peer that was discovered for this torrent; a peer with fewer than two failures is preferred, then one with fewer than four, and only then any other. A completed download keeps its peer busy with the next piece, and failures are counted against the peer that failed only.',
 ['histories'],'all histories of successes and failures and all random choices',
 'Peer selection is random and untested.',
 ['src/actors/torrent.rs'],[('find_suitable_peer, update_failed, update_sucess','src/actors/torrent.rs')],['endpoint in each piece request'])
p('C19','The UDP tracker exchange follows the protocol for any reply',
 'The client connects before announcing, announces with the connection id it was given, its transaction id, the full info-hash and peer id in the standard layout, and returns exactly the peers in the reply, including a reply with a single peer. Replies of any size or content, lost packets and socket errors lead to the peers or an error, never to a panic, an unbounded wait or peers taken from bytes that were not received.',
 ['inputs','fault_sequences'],'all tracker replies, sizes, losses and socket errors',
 'The tests have no UDP tracker at all.',
 ['src/tracker/udp_tracker.rs','src/tracker/mod.rs','src/tracker/peer_endpoint.rs'],[('connect_to_tracker, make_announce_message, read_upd_packet','src/tracker/udp_tracker.rs')],['datagrams sent','returned peers'])
p('C20','The HTTP tracker request and reply are handled exactly',
 'The announce request carries the info-hash with every byte percent-encoded as needed and the peer id; any reply body leads to exactly the peers of its compact peer string (address and port, complete six-byte entries only) or to an error, never to a panic.',
 ['inputs'],'all info-hashes and all reply bodies',
 'Tests use one info-hash and two canned replies.',
 ['src/tracker/tcp_tracker.rs','src/tracker/peer_endpoint.rs','src/tracker/mod.rs'],[('call, PeerEndpoint::from_bytes','src/tracker/tcp_tracker.rs')],['requested URL','returned peers'])
p('C21','Stored torrent info reloads identically or is refused',
 'Torrent info that was stored and is loaded again is equal to what was stored, for all names, lengths, hashes and file lists. A stored file that is missing, cut short, or does not hold usable torrent info leads to an error (and so to fetching again), never to a panic.',
 ['inputs','crash_points'],'all infos, all truncations and corruptions of the stored file',
 'Tests save and load one literal.',
 ['src/torrent/info.rs','src/actors/torrent.rs'],[('Info::save, Info::from_file, collect_info','src/torrent/info.rs')],['loaded info or error'])
p('C22','Any magnet submitted over HTTP gets a proper answer',
 'Submitting a valid magnet link starts exactly one torrent with exactly that info-hash and registers it with the trackers; submitting anything else is answered with a client error, starts nothing and leaves the service running.',
 ['inputs'],'every request body',
 'The HTTP handler has no tests.',
 ['src/main.rs','src/torrent/magnet.rs'],[('add_magnet','src/main.rs')],['HTTP status','messages to the tracker coordinator'])
p('C23','Bitfields are decoded bit by bit',
 'The bitfield a peer announces is decoded so that piece i is marked available exactly when bit i, counted from the most significant bit of the first byte, is set, for every payload.',
 ['inputs'],'every bitfield payload',
 'One literal is tested.',
 ['src/messages/bitfield.rs','src/peer/mod.rs'],[('get_bitfield_as_bit_vector','src/messages/bitfield.rs')],['decoded bit vector'])
p('C24','Reachable tracker peers reach the torrent exactly once',
 'For every tracker answer, each peer in it that accepts a connection is announced to the torrent that asked for it exactly once and in order, unreachable ones are not announced, and a tracker that fails announces nothing and does not stop the others. A registered torrent is passed to every configured tracker exactly once.',
 ['inputs','fault_sequences'],'all tracker answers and reachability patterns',
 'The tracker actors have no tests.',
 ['src/actors/tracker.rs','src/actors/trackers_interface.rs','src/tracker/peer_endpoint.rs'],[('TorrentRegistered handlers, is_reachable','src/actors/tracker.rs')],['messages to the torrent'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
