"""Writes known_findings.json: repaired defects (they suppress nothing) and recorded ones."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = '''C01 834d1ba truncated input (an integer, string or string length cut short) panicked the decoder
C01 3aef0a1 an unknown byte inside a list or dictionary made the decoder loop forever and allocate without bound
C02 f1726b9 the delimiters after integers and string lengths were not checked: malformed text was decoded as a different value
C02 d9124ed the empty string ("0:") was not decoded
C01 4e307be unbounded nesting overflowed the stack
C03 71f3ec3 string lengths counted characters instead of bytes: non-ASCII text did not decode back
C04 5ab83e4 a malformed entry in the file list was silently left out
C04 2bb2cb9 metadata no download could use (piece length zero, overflowing lengths, wrong number of hashes, neither length nor files) was accepted and crashed later
C21 d22215a a corrupted stored info file panicked
C21 ab03ed2 an info file that cannot be created panicked
C16 a35dd55 absolute and parent paths in metadata were written outside of the download directory
C15 1bbcabb bytes were lost when the system wrote less than asked
C15 6c15992 a failed write panicked
C06 a781284 malformed magnet links panicked
C06 7148621 base32 info-hashes were decoded to wrong bytes
C22 a623596 an invalid magnet link panicked the HTTP handler
C22 b80f689 registrations were dropped when a mailbox was full
C24 b80f689 a torrent was not passed to trackers when a mailbox was full
C07 9a2523f messages too short for their type panicked
C07 0eae0e9 an extension message whose payload is no dictionary panicked
C07 0c657aa an extension id above 255 was truncated to another id
C09 6d096a1 messages were lost, merged or misaligned when the stream was split; a huge length prefix was reserved
C12 02fd2a9 an endpoint that is no socket address panicked the download
C11 25b302e a block past the end of the piece was requested
C14 eee3cd3 a peer without metadata extension panicked the metadata download
C13 01ad005 metadata was accepted without comparing its SHA-1 with the info-hash
C21 574e1ab a downloads directory that cannot be created stopped the torrent
C17 574e1ab a downloads directory that cannot be created stopped the torrent
C19 fea65f3 a reply with a single peer was refused
C19 7630e8b socket errors panicked
C19 6ddd643 a lost reply was waited for forever
C19 8300968 size, action and transaction id of replies were not checked: peers were read from bytes not received
C19 c64c923 peers beyond the 663rd of a reply were dropped
C20 b70f8eb the query of a tracker url was mangled'''
fixed = ['fixed: property=%s %s %s' % tuple(l.split(' ', 2)) for l in F.split('\n')]
json.dump(dict(known=[], fixed=fixed), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
