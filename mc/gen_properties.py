#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long strings stay readable)."""
import json, os
P = []
NOTEST = "The repository's only tests cover nbc/util/ecdsa with a few random keys and fixed vectors; nothing exercises this code. "

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

FMT, MSG = 'nbc/protocol/format.py', 'nbc/protocol/messages.py'
BN, CN = 'nbc/node/basenode.py', 'nbc/node/connection.py'

prop('C01', 'Every protocol message survives the wire unchanged, in the Bitcoin layout',
 "Serialising any message that can be constructed gives exactly the Bitcoin wire bytes (magic, 12-byte zero-padded command, little-endian payload length, double-SHA256 checksum, payload; canonical var-ints; the documented byte order of every field). Parsing those bytes with the same magic gives back a message of the same type whose every field equals the original, and serialising that again gives the same bytes. Constructing a message with more entries than the protocol allows (1000 addresses, 50000 inventory entries), or without the one it needs (an input, an output, a locator hash), is refused.",
 ['inputs'], "all registered message types, every combination of boundary values of their fields (integers at both ends of their range, strings and lists with lengths around each var-int size switch, IPv4 and IPv6 addresses in every spelling, 0 to 3 list elements)",
 NOTEST + "The guarantee is over every field value, and the sizes where encodings switch are never sampled.",
 [FMT, MSG], [('typed field codecs', FMT), ('Message.binary / Message.parse', MSG)],
 ['Message.binary(magic)', 'Message.parse(data, magic)'])

prop('C02', 'Malformed protocol data is rejected, never misread',
 "Parsing a frame either yields a message whose fields are exactly the ones the Bitcoin encoding of the payload denotes, or raises an exception: a wrong magic, a wrong checksum, an unknown command, a payload that ends inside a field, or a list or string longer than the data present never produces a message. The work done is bounded by the size of the data, whatever counts and lengths the data claims.",
 ['inputs'], "for every registered message type: every payload of at most two bytes, every truncation of valid payloads, every one-byte change of short frames, and payloads whose counts/lengths claim more than is there",
 NOTEST + "Adversarial inputs are unbounded in variety; the tests parse none.",
 [FMT, MSG], [('length/type checks in the field codecs', FMT), ('magic/checksum/command checks', MSG)],
 ['Message.parse(data, magic)', 'UnknownMsgError', 'MsgFormatError'])

prop('C03', 'Inbound messages do not depend on how TCP cut the stream',
 "For any byte stream a peer sends, however it is split into reads, the node handles each complete well-formed message exactly once, in order and with the same contents, and handles none before its last byte arrived. Complete frames with an unknown command, a bad checksum or magic or a malformed payload are skipped without losing or disturbing the messages around them.",
 ['histories', 'inputs'], "streams of up to 6 frames (good, unknown, corrupted, empty payload, larger than one read), every read size at every offset, to closure of the (offset, node state) graph; single and paired cut points of long streams",
 NOTEST + "The number of segmentations is exponential in the stream length.",
 [CN, MSG], [('receive buffer and framing loop', CN), ('Message.first_msg_len', MSG)],
 ['node.command_* calls', 'bytes the node sends back', 'node.invalid_command'], [('receive buffer', 'bytes not yet framed', CN)])

prop('C04', 'Outgoing messages reach the socket complete, once and in order',
 "Whatever number of bytes each socket send accepts, and however sends interleave with newly queued messages, the bytes put on a connection are exactly the concatenation of the queued messages in order, with nothing lost, repeated or interleaved; the node asks to write exactly while bytes are pending. The sent-byte counters equal the bytes accepted.",
 ['schedules', 'fault_sequences'], "every sequence of partial-send sizes (0, 1, some, all, would-block) and queueing steps up to a bound, to closure over pending-byte states",
 NOTEST + "Short writes depend on the kernel and never happen in a unit test.",
 [CN], [('send buffer', CN)], ['bytes accepted by socket.send', 'tx_bytes', 'writable()'], [('send buffer', 'bytes not yet accepted', CN)])

prop('C05', 'No peer behaviour stops the node or disturbs other peers',
 "Whatever one peer does - connecting, sending any bytes, resetting, half-closing, failing a connect, refusing writes - the node's event loop keeps running, its listening socket stays open, and every other connection is served exactly as it would have been without that peer. Incoming peers are accepted while there are fewer than the maximum, and turned away otherwise. A closed connection is removed at once: nothing further is read from, written to or dispatched for it, and its socket is released.",
 ['schedules', 'fault_sequences', 'histories'], "every sequence of socket-level events (data, EOF, error on recv/send/accept/connect, close) over 2 peers up to a depth, with errors injected at each socket call",
 NOTEST + "Socket errors at particular calls and orders cannot be sampled meaningfully by unit tests.",
 [BN, CN], [('exception handling in read/write/error handlers', CN), ('asyncore map emulation', BN)],
 ['FakeSocket operations', 'serve_forever()'])

prop('C06', 'Protocol replies: version first, verack once, pong echoes, getaddr answered',
 "On every connection, incoming or outgoing, the first message the node sends is one version message naming the coin's protocol version, its user agent, block height and both endpoints; it answers each version with one verack, each ping with one pong carrying the same nonce, each getaddr with one addr, and answers no other message. A peer's advertised details become visible on the connection when its version arrives, and the connection counts as acknowledged only after a verack.",
 ['histories'], "every sequence of the registered message types up to length 3 from a peer (incoming and outgoing), to closure",
 NOTEST + "Order of peer messages is free; the set of histories is exponential.",
 [BN, CN], [('Connection bootstrap and handle_message', CN), ('command_* handlers', BN)], ['messages on the socket', 'Connection public attributes'])

prop('C07', 'The address book stays bounded and answers are the most recent addresses',
 "The node never remembers more than 2500 peer addresses whatever peers announce; an addr reply lists at most 1000 of them, each with the timestamp and services last announced, most recently seen first, never one whose services are unknown. The address of a peer that disconnects is forgotten, and others are kept.",
 ['histories', 'inputs'], "every sequence of addr/verack/disconnect/getaddr events over a small alphabet of addresses, and every fill level around the 1000 and 2500 limits",
 NOTEST + "The bounds are reached only after thousands of announcements in adversarial patterns.",
 [BN], [('command_address / command_get_address / disconnected', BN)], ['addr replies on the socket'], [('address map', 'known peers', BN)])

prop('C08', 'A misbehaving peer is disconnected and its IP banned for one hour',
 "A peer is dropped exactly when its penalty points exceed five; points are forgiven one per heartbeat and never go below zero. From that moment every connection from the same IP address, whatever its source port, is refused for one hour, and accepted again afterwards; other IPs are never refused.",
 ['histories', 'schedules'], "every interleaving of punish, heartbeat, reconnect (same/different port and IP) and time steps up to a depth",
 NOTEST + "Time-dependent multi-step histories.",
 [BN, CN], [('punish_peer, handle_accept', BN), ('banscore', CN)], ['accepted connections', 'socket close'], [('ban list', 'when each IP was banned', BN)])

prop('C09', 'Idle connections are kept alive with pings and dead ones are dropped',
 "A connection on which nothing was sent for more than 30 minutes gets a ping, and further pings at most every five minutes while that lasts; one that was sent something within 30 minutes gets none. A connection from which nothing arrived for more than three hours is closed, and one that was heard from within three hours is never closed for silence.",
 ['schedules', 'histories'], "every sequence of time steps around the 5 min / 30 min / 3 h limits interleaved with sends and receives",
 NOTEST + "Needs hours of virtual time at chosen instants.",
 [CN], [('readable()', CN)], ['pings on the socket', 'socket close'])

prop('C10', 'Outbound connections respect the peer limits',
 "The node opens outbound connections only while it has fewer peers than it seeks, at most five per maintenance round and a round at most every ten seconds, only to addresses it knows or its bootstrap list, never to an address it is already connected to or its own listening address; while it has fewer peers than it seeks and knows another address (or knows none and has a bootstrap list), each round tries one. A non-forced add never exceeds the maximum number of peers, and adding a peer reports success exactly when a connection was created.",
 ['histories', 'configurations'], "every small configuration (seek, max, known addresses, bootstrap on/off, connect results) and every sequence of heartbeats, adds, connects and disconnects up to a depth",
 NOTEST + "Depends on timing, randomness and failures.",
 [BN], [('heartbeat, add_any_peer, add_peer', BN)], ['connect calls', 'peers'])

prop('C11', 'The external address is the one most peers report',
 "After every version message the external address the node believes in, and advertises to new peers, is one that a maximal number of currently connected peers reported; an address set explicitly always wins.",
 ['histories'], "every sequence of versions with colliding/different reported addresses and disconnects over 4 peers",
 NOTEST + "Depends on orders of votes and departures.",
 [BN], [('_check_external_ip', BN)], ['external_ip', 'addr_from of version messages'])

prop('C12', 'Router port mapping: only free ports taken, exactly the own mapping removed',
 "Starting a listening node adds at most one mapping, on the first external port at or above its own that is free and valid, and never replaces an existing one; stopping it removes exactly the mapping it added and nothing else. A node without a router, with a full or failing router, or not listening still runs and stops normally; a port in use is reported as AddrInUseError.",
 ['configurations', 'fault_sequences'], "every router table over a window of ports (including the top of the port range), with a failure injected at every router call",
 NOTEST + "Needs a router; failures at particular calls cannot be provoked.",
 ['nbc/node/__init__.py', BN], [('add_portmap / remove_portmap', 'nbc/node/__init__.py')], ['UPnP calls'])

prop('C13', 'The log level never changes behaviour',
 "With every log level, and with or without a log file, the node sends the same bytes, dispatches the same messages and keeps the same connections for the same history. Every message that can be parsed or built can also be printed.",
 ['configurations', 'inputs'], "every log level x every registered message type x boundary field values, sent and received",
 NOTEST + "Log formatting is value-dependent; tests never log.",
 [CN, BN, MSG, FMT], [('__str__/_debug of messages', MSG), ('log()', BN)], ['bytes sent', 'command_* calls', 'str(message)'])

prop('C14', 'A wallet saved to a file loads back as the same wallet',
 "Saving a wallet (ordinary or HD, private or public-only, compressed or not, main or test net, any version number, with or without passphrase) and loading it with the same passphrase gives a wallet with the same keys, address, version number, network, compression and HD position, which signs and verifies for the original and derives the same children. Saving again, over another wallet's file, or repeatedly, never mixes the wallets, and keeps the file's permissions; with a passphrase no private key material is readable in the file.",
 ['inputs', 'histories'], "the product of wallet kinds x flags x version numbers x passphrases (lengths around 16) x keys with leading zeros, and every save/load/convert sequence up to a depth",
 NOTEST + "Round trips must hold for every combination.",
 ['nbc/wallet/__init__.py', 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py'],
 [('dump_to_cfg/load_from_cfg', 'nbc/wallet'), ('saveTo/loadFrom', 'nbc/wallet/__init__.py')], ['saveTo', 'loadFrom', 'public accessors'])

prop('C15', 'A crash or write error while saving never loses the wallet on disk',
 "If the process or machine dies at any point while a wallet is being saved over an existing wallet file, or a write fails, the file afterwards holds either the complete old wallet or the complete new one; never a partial, empty or unreadable file. Once the save returned the file holds the new wallet even if the machine then crashes, and a failed save raises, leaves the old wallet (or the complete new one, when only confirming it on the disk failed) and no other files.",
 ['crash_points', 'fault_sequences'], "every point between file system effects of the save, every torn prefix of unsynced data, every subset of unsynced renames, and a failure at every write offset",
 NOTEST + "Crash states are not reachable from unit tests.",
 ['nbc/wallet/__init__.py'], [('saveTo', 'nbc/wallet/__init__.py')], ['directory contents at each crash point', 'loadFrom'])

prop('C16', 'A wrong passphrase or damaged wallet file never yields a different wallet',
 "Loading an encrypted wallet with any passphrase other than the one it was saved with (same first 16 bytes aside), or loading a file whose private-key field was damaged (not replaced by the complete one of another wallet), raises an error or gives the original wallet; it never yields a wallet with other keys. The same holds for any one-character change of the file of a private or HD wallet; truncated files, unknown types and chain codes of wrong length are refused.",
 ['inputs'], "every passphrase differing in one byte or length from a list, every one-character change and truncation of the stored key field, for both wallet kinds",
 NOTEST + "The failure needs specific wrong passphrases; random tries rarely hit.",
 ['nbc/wallet/address.py', 'nbc/wallet/hdwallet.py'], [('length prefix and WIF checksum checks', 'nbc/wallet/address.py')], ['loadFrom'])

prop('C17', 'HD derivation is BIP32 and agrees between the private and public tree',
 "Child derivation from any node and index gives exactly the key, chain code, depth, fingerprint, index and network BIP32 prescribes; deriving a non-hardened child and then dropping the private key gives the same node as dropping it first. Public-only nodes refuse hardened derivation, invalid indexes are refused, and deriving one child never influences another.",
 ['inputs', 'histories'], "all paths up to depth 3 over an alphabet of indexes (0, 1, 255/256, 2^31-1, 2^31, 2^32-1) from several masters, keys with leading zeros, both parities, every derivation order",
 NOTEST + "Agreement must hold for every key and index; parity and leading-zero cases are rare in random tests.",
 ['nbc/wallet/hdwallet.py'], [('HDWallet.child', 'nbc/wallet/hdwallet.py')], ['prvkey/pubkey/chain/fingerprint/...', 'to_extended_key'])

prop('C18', 'Extended keys round-trip and damaged ones are refused',
 "The extended private or public key of any HD node is its BIP32 serialisation, and reading it back gives a node with the same keys, chain code, depth, parent fingerprint, index and network. A string that is not a valid extended key (any altered or missing character, wrong length, unknown version, key out of range or not on the curve) is refused.",
 ['inputs'], "nodes at several depths x both networks x private/public x keys of both parities; every single-character substitution, deletion and insertion of their serialisations; re-checksummed invalid contents",
 NOTEST + "Requires all strings near valid ones.",
 ['nbc/wallet/hdwallet.py', 'nbc/util/base58.py'], [('to_extended_key/from_extended_key', 'nbc/wallet/hdwallet.py')], ['to_extended_key', 'from_extended_key'])

prop('C19', 'Addresses, WIF keys and key compression are exact and lossless',
 "A private key converts to WIF and back unchanged, keeping its compression; compressing and decompressing a public key gives back the same point; switching a wallet between compressed and uncompressed and back preserves keys, version number and network. The printed address is Base58Check of network byte, the version number in hex (every value 0-65535) and the specified hash of the public key, so wallets differing in key, compression, network or version number have different addresses; a malformed WIF or public key is refused.",
 ['inputs'], "keys 1, 2, n-1, leading zeros, both parities x compression x network x every boundary version number; every one-character change of WIF strings; every malformed key prefix and length",
 NOTEST + "Edge values (leading zeros, odd parity, version 0 or 65535) are not sampled.",
 ['nbc/util/key.py', 'nbc/wallet/address.py'], [('privkey_to/from_wif, compress/decompress_public_key, publickey_to_address', 'nbc/util/key.py')], ['Address', 'util.key'])

prop('C20', 'Base58 and Base58Check are lossless and reject damage',
 "Base58 encoding of any byte string decodes to the same bytes, leading zero bytes included, and is the standard encoding; decoding is the inverse on valid strings and refuses characters outside the alphabet. Base58Check returns the payload exactly when the checksum is right, so any change of a character is detected.",
 ['inputs'], "all byte strings of length up to 2, structured longer ones (zero runs, 0xff runs, lengths to 100), all base58 strings up to length 3, every single-character substitution, deletion, swap and insertion of encoded payloads",
 NOTEST + "No test touches base58.",
 ['nbc/util/base58.py'], [('b58encode/b58decode/encode_check/decode_check', 'nbc/util/base58.py')], ['util.base58'])

prop('C21', 'Wallet signatures verify for the same key and data, and for nothing else',
 "A signature made by any wallet for any data verifies with that wallet, its public-only and reloaded copies, and fails for different data, a different key, and any altered r or s. Verifying any byte string as a signature, or with any byte string as public key, answers true or false and never raises, and is true only for a well-formed encoding of a valid signature.",
 ['inputs', 'fault_sequences'], "wallet kinds x messages of boundary lengths; every truncation, single-byte change class and structural DER mutation of a signature; all byte strings of length up to 2 as signature",
 NOTEST + "Malformed signatures come from outside and are unbounded; no test tries them through the wallet.",
 ['nbc/util/ecc.py', 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py'], [('ecc.sign / ecc.verify', 'nbc/util/ecc.py')], ['sign', 'verify'])

prop('C22', 'Elliptic-curve arithmetic obeys the group law on every curve',
 "Point addition, doubling, negation by order, and multiplication by any non-negative integer give the mathematically defined result, including the point at infinity, inverse pairs, points of order two and multipliers at or beyond the order. Points off the curve are refused, and the six named curves have the published parameters.",
 ['inputs'], "all points and all pairs of points on every non-singular curve over every prime field up to a bound, all multipliers to beyond the group order; boundary multipliers on the six standard curves",
 "The existing tests check a handful of points on one toy curve and random keys on the standard ones; special cases are not reached.",
 ['nbc/util/ecdsa/ellipticcurve.py', 'nbc/util/ecdsa/ecdsa.py', 'nbc/util/ecdsa/curves.py'], [('Point', 'nbc/util/ecdsa/ellipticcurve.py')], ['Point arithmetic'])

prop('C23', 'ECDSA accepts exactly the valid signatures',
 "Signing any number with any key and nonce gives the standard ECDSA pair (or reports the unlucky zero case; a nonce that is zero modulo the order gives no signature), and verification is true for exactly those (r, s) the ECDSA equation admits: nothing outside 1..n-1, nothing for another key or hash, and never an exception. A digest longer than the order is neither signed nor accepted. Public key validation accepts exactly the points of the right order with coordinates in the field.",
 ['inputs'], "all keys x nonces x hashes and all (r, s) in [0, n+1] on all prime-order toy curves up to a bound, all candidate points; boundary values on secp256k1 and the NIST curves",
 "The existing tests sample random keys on large curves, where the zero, infinity and wrap-around cases have probability 2^-128.",
 ['nbc/util/ecdsa/ecdsa.py', 'nbc/util/ecdsa/keys.py'], [('Private_key.sign, Public_key.verifies, point_is_valid', 'nbc/util/ecdsa/ecdsa.py')], ['sign', 'verifies', 'point_is_valid'])

prop('C24', 'Deterministic signatures use the RFC 6979 nonce',
 "The deterministic nonce for every key, digest, hash function and group order is the RFC 6979 value, including orders whose length is not a multiple of eight, digests shorter or longer than the order, and when candidates are rejected and retried. It is always in 1..n-1, and deterministic signing is reproducible.",
 ['inputs'], "every secret and every digest class for small group orders (where rejections happen constantly), plus standard curves x hash functions",
 "The existing tests hold a few fixed vectors in which no candidate is ever rejected.",
 ['nbc/util/ecdsa/rfc6979.py', 'nbc/util/ecdsa/keys.py'], [('generate_k', 'nbc/util/ecdsa/rfc6979.py')], ['generate_k', 'sign_deterministic'])

prop('C25', 'Signature and key encodings are lossless, strict and canonical',
 "Every (r, s) pair and every key survives each of its encodings (raw string, pair of strings, DER, PEM) unchanged, object identifiers and lengths inside them too, and the encodings are the standard ones. Strict decoders refuse truncated, extended or wrong-length data, key decoders also other versions, tags, unknown curves, coordinates beyond the field and points off the curve, and digests longer than the curve's order are refused; canonical encoders emit the low-s form of exactly s or n-s, unchanged when s is already low.",
 ['inputs'], "boundary r, s on six curves incl. values whose top bit is set or with leading zero bytes and s around n/2; all s on toy orders; every truncation, extension and one-byte change of DER structures",
 "The existing tests round-trip a few random values; top-bit, leading-zero and half-order boundaries are luck.",
 ['nbc/util/ecdsa/der.py', 'nbc/util/ecdsa/util.py', 'nbc/util/ecdsa/keys.py'], [('DER and sigencode/sigdecode helpers', 'nbc/util/ecdsa/util.py')], ['sigencode_*', 'sigdecode_*', 'to_der/from_der', 'to_pem/from_pem'])

prop('C26', 'AES and its modes are the standard ciphers, whatever the chunking',
 "AES with 128, 192 and 256-bit keys is the FIPS-197 cipher in both directions, and ECB, CBC, CFB, OFB and CTR follow SP 800-38A, with decryption inverting encryption for every key, IV, counter and message. Feeding a message through the streaming encrypter or decrypter in any pieces gives the same bytes as in one piece, padding included, malformed padding and wrong lengths are refused, and separate cipher objects never influence each other.",
 ['inputs', 'histories'], "all chunkings of messages up to a length for each mode and key size to closure, each byte value at each position of key and block, counter wrap-around, interleaved use of two objects",
 NOTEST + "No test touches AES.",
 ['nbc/util/pyaes/aes.py', 'nbc/util/pyaes/blockfeeder.py', 'nbc/util/pyaes/util.py'], [('AES tables and modes', 'nbc/util/pyaes/aes.py'), ('BlockFeeder', 'nbc/util/pyaes/blockfeeder.py')], ['encrypt/decrypt/feed'])

prop('C27', 'The number-theory functions equal their definitions',
 "Modular inverse, modular square root, Jacobi symbol, gcd, lcm, factorisation, Euler and Carmichael functions, multiplicative order, primality and next prime return the mathematically defined value over their domain, and the inverse and square root refuse inputs that have none.",
 ['inputs'], "all arguments up to a bound by brute force against the definition, all residues for all primes of each class, plus large structured arguments around the standard curve moduli, strong pseudoprimes and Carmichael numbers",
 "The existing self-test covers square roots and Jacobi symbols for small primes only.",
 ['nbc/util/ecdsa/numbertheory.py'], [('numbertheory', 'nbc/util/ecdsa/numbertheory.py')], ['function results'])

prop('C28', 'Random scalars are in range and uniform; seed-derived ones are reproducible',
 "Drawing a random scalar below an order n uses entropy only from the given source, always gives a value in 1..n-1, and gives every value equally often over all entropy outcomes, retrying rejected candidates with fresh entropy and stopping with an error if the source is stuck. Every seed-based derivation returns the same in-range value for the same seed, and different seeds are not collapsed.",
 ['inputs', 'fault_sequences'], "every order up to a bound x every sequence of entropy outcomes (complete tree), all four seed-based methods over orders of every bit length",
 "The existing tests draw random samples; uniformity and range need all outcomes.",
 ['nbc/util/ecdsa/util.py'], [('randrange, randrange_from_seed__*', 'nbc/util/ecdsa/util.py')], ['randrange*'])

prop('C29', 'Transaction and block hashes, merkle roots and targets are the Bitcoin ones',
 "The hash of any transaction or block header is the double-SHA256 of its serialisation (80-byte header), the merkle root of any number of transactions follows Bitcoin's pairing rule, and computing them changes neither the list given nor the objects. Target, difficulty, header and version-number helpers compute the documented values, and version numbers convert both ways losslessly.",
 ['inputs'], "all list lengths 1 to 70, boundary headers and transactions, all version component combinations at boundaries, all exponents of compact targets",
 NOTEST + "Odd list lengths at every level of the tree need all lengths.",
 ['nbc/util/__init__.py', FMT], [('get_merkle_root etc.', 'nbc/util/__init__.py'), ('Txn.hash/BlockHeader.hash', FMT)], ['util.get_merkle_root', '.hash'])

prop('C30', 'Split private keys recombine to the original, partial key-sets as documented',
 "Splitting a private key into any number of parts and combining all of them, in any order, gives back the key. The address computed from a public key and a private part is that of the combined private key, and a partial m-of-N key-set recombines from all N sets or any m cyclically adjacent ones, returns nothing from insufficient parts and refuses mixed or altered parts.",
 ['inputs', 'histories'], "all counts up to 6, all (m, N) up to a bound, every subset of sets and order, with the random scalars enumerated at boundaries",
 NOTEST + "Combinations of parts are exponential.",
 ['nbc/util/piecewise.py'], [('split/combine', 'nbc/util/piecewise.py')], ['split_private_key', 'combine_private_keys', 'partial_*', 'get_address'])

prop('C31', 'DNS seeding and height guessing are correct under every thread interleaving',
 "Under every scheduling of the lookup threads and callers: every address is offered by the seeder exactly as often as the lookups returned it, none is invented, lost or handed out more often, failing lookups affect only themselves (what follows a malformed result within one lookup may be lost), and asking an empty seeder raises. The height guess returns, within its timeout, a snapshot holding exactly sources that finished, each with its own value, which later arrivals never change.",
 ['schedules', 'fault_sequences'], "all interleavings of 2-3 threads up to a preemption bound at every line, with lookup failures, duplicates and slow sources",
 NOTEST + "Thread schedules are not controllable in unit tests.",
 ['nbc/util/bootstrap.py', 'nbc/util/__init__.py'], [('lock around the shared list/dict', 'nbc/util/bootstrap.py')], ['DNSSeeder.pop/len', 'guess_block_height'])

prop('C32', 'Concurrent and interleaved use of wallets, ciphers and codecs is safe',
 "Operations on separate wallets, keys, ciphers and messages - signing, verifying, deriving, encrypting, parsing, serialising - give, in any interleaving of two threads and after any earlier calls in the same process, exactly what they give alone in a fresh process. The same holds for read-only operations on one shared object.",
 ['schedules', 'histories'], "all interleavings up to a preemption bound of two-operation harnesses, and all orderings of operation pairs and triples in one process",
 NOTEST + "Hidden shared state appears only under specific orders or preemptions.",
 ['nbc/wallet/hdwallet.py', 'nbc/wallet/address.py', 'nbc/util/pyaes/aes.py', MSG, FMT], [('no shared mutable state between objects', 'nbc')], ['results of public operations'])

prop('C33', 'Alerts show exactly what was signed',
 "An alert's fields are exactly those its payload encodes, in any order of access and repeatedly, and a truncated or malformed payload raises instead of showing partial or default values. Verification is true only for a signature by the given public key over exactly that payload.",
 ['inputs'], "boundary values of all fields, every truncation of the payload, every access order of field pairs, altered payloads and signatures",
 NOTEST + "No test builds an alert.",
 [MSG], [('Alert payload parsing', MSG)], ['Alert properties', 'Alert.verify'])

prop('C34', 'Partial key-sets survive being printed as QR codes',
 "Encoding the parts of one partial key-set for a QR code (partial_split_qr_encode) and decoding the code (partial_split_qr_decode) gives back exactly those parts, whatever their order, as text or bytes, so that sets that went through codes still combine to the key. Parts of different keys or key-sets, malformed parts, and sets whose indices the code cannot represent (more than one index left out, or one twice) are refused, never encoded as something else; a wrong header is refused, and a damaged or cut code never decodes to parts that combine to another key.",
 ['inputs'], "all (m, N) up to a bound, every set and order of its parts, every combination of indices, every one-character change, cut, swap and extension of codes",
 NOTEST + "Only some sets (those whose length needs no padding, or without gaps) take the plain path.",
 ['nbc/util/piecewise.py'], [('QR encode/decode', 'nbc/util/piecewise.py')], ['partial_split_qr_encode', 'partial_split_qr_decode'])

prop('C35', 'Both owners of two keys compute the same shared secret',
 "shared_secret(public key of B, private key of A) is the 32-byte big-endian x coordinate of A's scalar times B's point (elliptic-curve Diffie-Hellman on secp256k1), so it equals shared_secret(public key of A, private key of B), for compressed and uncompressed encodings alike, zero bytes included. Public keys that are malformed or not on the curve and malformed or zero private keys are refused.",
 ['inputs'], "all ordered pairs of boundary keys in all encodings, keys with zero bytes in coordinates, every one-bit change and length of a public key, every one-character change of a private key",
 NOTEST + "Agreement has to hold for every pair of keys; an accepted off-curve point leaks the private key.",
 ['nbc/util/ecc.py', 'nbc/util/key.py'], [('shared_secret', 'nbc/util/ecc.py')], ['ecc.shared_secret'])

prop('C36', 'A node stops cleanly, and nodes of one process share nothing',
 "Whenever the loop is ended from begin_loop - by StopNode (serve_forever returns) or another exception (it propagates) - the node closes its listening socket and every connection, reports each of them as disconnected exactly once, and a new node can take over the port at once, remembering nothing. close() frees the port at once, the peers the node has are served to their end, and then serve_forever returns. A node that cannot be created (port in use: AddrInUseError; other socket errors) leaves no socket behind. Two nodes in one process are independent: peers, addresses, bans, external address, counters, log and messages of one are what they would be without the other, whatever the other does and whichever was created first.",
 ['histories', 'fault_sequences'], "all situations of connections x ways to end x round; failures of every socket call while creating; all action sequences up to a length on one node, at every point of the other's history",
 NOTEST + "State leaking between objects and half-finished shutdowns show only in specific histories.",
 [BN, CN], [('serve_forever, BaseNode.__init__', BN)], ['serve_forever', 'sockets', 'messages on the wire', 'BaseNode attributes'])

prop('C37', 'Two nodes complete the handshake and networks of nodes find each other',
 "Two nodes of this code, connected by one or both sides, complete the handshake under every interleaving of their loops and of the network's deliveries: each receives exactly what the other sent, in order, exactly one version and one verack, refuses nothing, learns the other's version, services, height and agent and its own external address, and hands the other's address out. With enough seek_peers, nodes that are initially connected in any shape connect to every node whose listening address some node knows within a bounded number of heartbeats (random choices being fair), never to themselves and never twice to one address; a node that stops and is started again rejoins.",
 ['schedules', 'histories'], "the closed state graph of two nodes under {round of either, delivery of all or part of either direction, time step}; all initial topologies of 2 to 4 nodes, restarts of each",
 NOTEST + "No test runs a node; what matters is the composition of both ends under every order.",
 [BN, CN, MSG], [('command_* handlers, heartbeat', BN), ('Connection', CN)], ['messages on the wire', 'peers'])

prop('C38', 'Block-height sources give the height found at their place, or nothing',
 "A source made by fetch_url_json_path_int(url, path) asks exactly its URL and gives the integer at the path (keys of objects, indices of lists) of the JSON document, and None when the document is not JSON, the path leads nowhere or to something that is no number; fetch_url_int gives the integer the page consists of, or None. A network failure gives no height (None or the error), and no call influences a later one. guess_block_height over the coin's sources reports every answering source's own height and no number for the others.",
 ['inputs', 'fault_sequences'], "all JSON documents up to a depth x paths, malformed texts, network failures, all combinations of outcomes of the coin's four sources",
 NOTEST + "The pages come from others; only enumeration covers their shapes.",
 ['nbc/util/__init__.py', 'nbc/coins/newbitcoin.py'], [('fetch_url_json_path_int, fetch_url_int', 'nbc/util/__init__.py'), ('block_height_guess', 'nbc/coins/newbitcoin.py')], ['the source callables', 'guess_block_height'])

prop('C39', 'Private keys are shown only where they are asked for',
 "The private key of an Address or HDWallet appears in no form (hexadecimal, decimal, base64, WIF, extended private key) in its text forms, addresses, public keys, public extended keys, signatures, files or dumps made with a passphrase, printed output or messages of exceptions - of failing operations, wrong passphrases and refused malformed keys too. The text of a wallet names its address and tells whether the private key is known. A wallet made from public data alone never yields private data or signatures, even when the private wallet of the same key was used before in the process.",
 ['inputs', 'histories'], "every kind of wallet x all sequences of operations up to a length, with and without earlier use of the private wallet",
 NOTEST + "A leak is in the one output nobody looks at.",
 ['nbc/wallet/address.py', 'nbc/wallet/hdwallet.py', 'nbc/wallet/__init__.py', 'nbc/util/key.py'], [('__str__, dump_to_cfg, to_extended_key', 'nbc/wallet')], ['str', 'to_extended_key', 'dump_to_cfg', 'saveTo', 'exceptions', 'stdout'])

prop('C40', 'The node\'s table is its live sockets, and a node is what it was told to be',
 "Used as a mapping (keys, values, get, [], in, len, iteration) the node holds exactly its sockets that are not closed - its listening socket and one Connection per live connection, under the file descriptor - after every event, and peers is exactly those connections; connections are equal (and hash alike) exactly when their addresses are, and their text names the address; add_peer answers whether a connection was made. Constructor arguments of BaseNode and RawNode, by position or name, and their defaults have the documented effect (data directory, listening address or none, peers sought, maximum accepted, seeds used, log, coin). startServer serves the node in a daemon thread.",
 ['histories', 'fault_sequences'], "all sequences of connection events up to a length with the whole table compared after each; all subsets and prefixes of constructor arguments",
 NOTEST + "The event loop runs on this table: one stale or missing entry breaks select() much later.",
 [BN, CN, 'nbc/node/raw.py'], [('mapping emulation, constructor', BN), ('Connection.__eq__/__hash__', CN), ('RawNode', 'nbc/node/raw.py')], ['BaseNode mapping', 'peers', 'add_peer', 'RawNode()', 'startServer'])

prop('C41', 'Coin lookup and parameters, hashes and number conversions are exact',
 "get_coin finds a coin by its name or one of its symbols in any capitals and nothing else; the parameters of Newbitcoin are the published ones and its genesis header hashes to its genesis hash. sha1, sha256, sha256d, ripemd160 and hash160 are the standard functions of any data; commify, bin_to_hex/hex_to_bin, int_to_string/string_to_int, digest_integer and twos_comp compute what they say for every number, and ecc.point gives the point with these coordinates, refusing pairs that are not on the curve.",
 ['inputs'], "all lengths up to a bound, all case variants and one-character changes of names, all values up to a bound and boundaries beyond",
 NOTEST + "Every other layer relies on them.",
 ['nbc/coins/__init__.py', 'nbc/coins/newbitcoin.py', 'nbc/util/hash.py', 'nbc/util/__init__.py', 'nbc/util/ecc.py', 'nbc/util/ecdsa/ecdsa.py'], [('get_coin', 'nbc/coins/__init__.py'), ('hash helpers', 'nbc/util/hash.py')], ['coins.get_coin', 'util.*'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
