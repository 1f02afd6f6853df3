prop('P13', 'Hierarchical key derivation follows its definition on every path',
     'In owkeychain a child key is exactly the parent scalar (or point) combined with the left half of the keyed digest of parent key, index and chain code, reduced by the group order of the curve, with the right half as chain code, the parent\'s hash160 prefix as fingerprint, depth plus one and the index as serial; hardened children use the private key, normal children the public key, and a normal child derived publicly has the public key of the privately derived child\'s definition. Invalid digests, exhausted depth (255), hardened derivation from a public key and malformed or out-of-range path components are refused with an error and never crash or wrap around.',
     'every parent key, chain code, depth, index, curve type and derivation path component',
     'Tests derive a few fixed paths; boundary depths, indices, digests above the group order and each curve family behave differently.',
     ['owkeychain/extendedkey.go', 'owkeychain/hdkey.go'], [('child key derivation', 'owkeychain/extendedkey.go'), ('path parsing', 'owkeychain/hdkey.go')],
     'Every derivation function is proved equal to its definition for all keys with HMAC, hash160 and curve operations uninterpreted; whole-path derivation is proved for paths of up to two components (labelled bounded) over the per-step contracts.')

prop('P14', 'Extended keys serialise and parse without loss and reject corruption',
     'In owkeychain the encoded form of an extended key is base58check, under the prefix of its kind, of exactly curve, depth, parent fingerprint, index, chain code and key in that order, and parsing any string either fails with an error or returns the fields laid out in it, never crashing. A string whose prefix or checksum does not match is refused; a multi-signature share (public key, chain code, curve) round-trips the same way.',
     'every extended key of every curve, every string offered to the parser',
     'Only a few keys are encoded in tests; the layout depends on curve and kind, and malformed strings of each length take different branches.',
     ['owkeychain/owencode.go', 'owkeychain/extendedkey.go', 'owkeychain/multisig.go', 'owkeychain/base58.go'], [('extended key codec', 'owkeychain/owencode.go'), ('share codec', 'owkeychain/multisig.go')],
     'Encoder and parser are proved against the layout for all keys and all strings, with the base58 digits conversion abstracted by its own contract (inverse functions).')

B58 = ['aliencoinTransaction', 'bitcoincashTransaction', 'bitcoinsvTransaction', 'btcLikeTxDriver', 'btcTransaction', 'cxcTransaction', 'elastosTransaction', 'fiiiTransaction', 'hcTransaction', 'hypercashTransaction', 'omniTransaction', 'ontologyTransaction', 'vergeTransaction', 'virtualeconomyTransaction', 'vollarTransaction', 'waykichainTransaction', 'zencashTransaction', 'rippleTransaction']
prop('P02', 'Base58 and base58check address strings are exact and checked in the drivers',
     'In every driver package with a base58 codec, encoding gives one leading zero digit per leading zero byte followed by the base-58 digits of the number in the package\'s alphabet, and decoding is its inverse: a string with a character outside the alphabet is refused with an error, never crashes. A base58check address encodes prefix, hash and the four-byte checksum of both, and decoding any string either fails with an error (undecodable, too short, wrong checksum, wrong prefix where the function checks it) or returns exactly the prefix and 20-byte hash it contains, so what was encoded comes back.',
     'every byte string and every string offered to the codecs, every prefix and hash',
     'One wrong carry or leading-zero rule affects rare values only, and corrupted addresses form an unbounded set; tests decode a few good addresses.',
     [p + '/base58.go' for p in B58], [('digit conversion', 'base58.go'), ('checksum layer', 'base58.go')],
     'The checksum layer is proved for all strings over an opaque digit conversion; the digit conversion itself is proved for two-byte inputs / two-character strings (bounded) and beyond that only executed against a reference on generated strings of up to 130 bytes (bounded, never counted as proved).')

B32 = ['btcTransaction', 'hcTransaction', 'zencashTransaction', 'cxcTransaction', 'omniTransaction', 'btcLikeTxDriver', 'cosmosTransaction', 'evaioTransaction', 'bytomTransaction']
prop('P03', 'Bech32, bech32m and cashaddr strings are exact, checked and round-trip',
     'In the bech32 codecs of the drivers (btcTransaction, hcTransaction, zencashTransaction, cxcTransaction, omniTransaction, btcLikeTxDriver, cosmosTransaction, evaioTransaction, bytomTransaction) and in addressEncoder\'s bech32, bech32m and base32PolyMod (cashaddr) codecs, the address of every 20-byte payload (and 32-byte payload where the network has them) is prefix, separator, version group where the network uses one, the payload\'s 5-bit groups and the check groups of the network\'s polynomial, in the alphabet; decoding it gives the payload back. A string of an address\' length is either refused with an error or consists of alphabet characters of one case with valid check groups and the returned bytes are exactly the bits of its groups. No string of any length crashes a decoder, and bech32m and cashaddr refuse foreign prefixes.',
     'every payload, every prefix of the stated length for encoding, every string offered for decoding',
     'There are 2^160 payloads and the checksum mixes all of them; a wrong generator constant, shift or table entry shows up only for payloads or corruptions that exercise it.',
     [p + '/bech32.go' for p in B32] + ['addressEncoder/bech32/bech32.go', 'addressEncoder/bech32m/bech32m.go', 'addressEncoder/base32PolyMod/base32PolyMod.go'],
     [('polynomial, regrouping, alphabet', 'bech32.go'), ('cashaddr', 'addressEncoder/base32PolyMod/base32PolyMod.go')],
     'The 5-bit regrouping and the checksum are linear over GF(2): the engine executes the real code on linear normal forms of all payload bits at once, so encoder, decoder and round trip are proved for all payloads of the stated lengths; totality is proved for strings of any length with the checksum abstracted.')

prop('P04', 'Address encoding and checking follow the network\'s address type exactly',
     'In addressEncoder, encoding a payload under an address type hashes it by the type\'s rule when it does not have the type\'s payload length and produces exactly the type\'s prefix, payload, suffix and checksum in the type\'s text form (base58 types with any prefix, suffix and checksum rule, ICX, ETH hex, EOS, AE, bech32, bech32m and cashaddr types). Decoding any string under a type fails with an error, without crashing, or returns the payload of exactly the type\'s length from an address with that type\'s prefix, suffix and a correct checksum, and what was encoded comes back; the address check accepts, for each supported currency, exactly the strings whose leading characters select a type and that decode under it, and says why not otherwise.',
     'every payload, prefix, suffix, checksum and hash rule; every string offered to the decoder and to the check of every supported currency',
     'Tests decode some valid addresses per currency; acceptance of wrong prefixes, suffixes, lengths, checksums or networks concerns the unbounded set of other strings.',
     ['addressEncoder/addressEncoder.go', 'addressEncoder/addressCheck.go', 'addressEncoder/encoderProfile.go', 'addressEncoder/eos.go', 'addressEncoder/aeternity.go', 'addressEncoder/eip55/eip55.go'],
     [('dispatch, checksum, hash rules', 'addressEncoder/addressEncoder.go'), ('currency table', 'addressEncoder/addressCheck.go')],
     'Proved for all payloads, types and strings over opaque digit conversions (whose own contracts are P02/P03); Monero block addresses and CRC32 are only executed against a reference on generated inputs (labelled search, not counted as proved).')

FAM9 = ['btcTransaction', 'bitcoincashTransaction', 'bitcoinsvTransaction', 'cxcTransaction', 'hcTransaction', 'omniTransaction', 'zencashTransaction']
prop('P09', 'A created transaction spends and pays exactly what was requested',
     'In the bitcoin-family drivers (btcTransaction, bitcoincashTransaction, bitcoinsvTransaction, cxcTransaction, hcTransaction, omniTransaction, zencashTransaction) creating an unsigned transaction either fails with an error or yields the network\'s version, one input per request with the requested outpoint and the sequence that lock time and replaceability call for, and one output per request, in order, with the requested amount and the standard lock script of the requested address (pay-to-key-hash, pay-to-script-hash or witness program by the address\' prefix), then the lock time. An address that does not decode, has a foreign prefix or a malformed transaction id is an error, never a wrong output. Omni transactions add one zero-value output carrying the requested Omni message, cxc asset transfers put the asset reference and amount behind each lock script, zencash outputs end in the requested block hash and height.',
     'any number of inputs and outputs, every address string, amount, lock time, Omni request and asset transfer',
     'A payment to the wrong script or with a wrong amount is irreversible; tests create a few fixed transactions and print them.',
     [p + '/txOut.go' for p in FAM9] + [p + '/txIn.go' for p in FAM9] + ['omniTransaction/txOmni.go', 'omniTransaction/txPayload.go', 'cxcTransaction/txAsset.go'],
     [('outputs', 'txOut.go'), ('inputs', 'txIn.go'), ('Omni messages', 'txPayload.go'), ('asset outputs', 'cxcTransaction/txAsset.go')],
     'Proved for any number of inputs and outputs by loop summaries with a quantified output index; address decoders are opaque here (their contracts are P02/P03) and the encoder of the assembled structure is P07.')

prop('P11', 'Signatures are made, inserted and verified over exactly the transaction',
     'In the bitcoin-family drivers (btcTransaction, bitcoincashTransaction, bitcoinsvTransaction, cxcTransaction, hcTransaction, omniTransaction, zencashTransaction) signing a hash signs exactly those 32 bytes with the given key and returns the signature with that key\'s compressed public key, or fails. Inserting signatures changes nothing of an unsigned transaction but the unlocking scripts: every input gets the script of its own signature, in input order, of the type its unlock data calls for; missing, incomplete or mismatching signatures or unlock data are an error, never a transaction. Verification accepts a signed transaction exactly if every input carries a valid signature, under the key it comes with (two signatures in key order for 2-of-3 inputs), over the hash of the emptied transaction and the given unlock data, and never crashes.',
     'every transaction, unlock data, signature set and key',
     'A signature in the wrong input, over the wrong bytes, or a verifier that skips an input, is invisible in tests that sign and verify one good transaction.',
     [p + '/transaction.go' for p in FAM9] + [p + '/txHash.go' for p in FAM9],
     [('insertion and verification', 'transaction.go'), ('unlocking scripts', 'txHash.go')],
     'Insertion is proved for any number of inputs; verification for one and two single-key inputs and one 2-of-3 input (labelled bounded), over opaque parsing, hashing (P08) and signature functions.')

prop('P12', 'Multi-signature addresses and scripts are standard and read back exactly',
     'In the bitcoin-family drivers (btcTransaction, bitcoincashTransaction, bitcoinsvTransaction, cxcTransaction, hcTransaction, omniTransaction, zencashTransaction) creating an m-of-n address with 1 <= m <= n <= 16 and keys of 33 or 65 bytes yields exactly the standard redeem script with the keys in the given order and the script-hash address of that script (of its witness program where segwit is chosen); anything else is an error. Reading a redeem script gives back the required number and the compressed keys laid out in it or fails. The unlocking script of a multi-signature input is the empty item, the first m signatures in key order and the pushed redeem script, refused unless complete and well formed, and parsing it returns exactly those signatures and keys; no script crashes the readers.',
     'every key list, required number, redeem script and signature set',
     'Which keys and signatures are present multiplies into cases no test enumerates, and a wrong address loses the funds sent to it.',
     [p + '/txMultiSig.go' for p in FAM9] + [p + '/txHash.go' for p in FAM9],
     [('address creation, redeem parsing', 'txMultiSig.go'), ('unlocking script', 'txHash.go')],
     'Creation and redeem parsing are proved for any number of keys; building and parsing unlocking scripts for up to three keys (labelled bounded), with the DER coding of signatures opaque (P06). Known findings: witness inputs other than 2-of-n, and witness redeem scripts above 252 bytes.')

U = ['transaction.go', 'txStruct.go', 'txIn.go', 'txOut.go']
prop('P15', 'Aliencoin, verge and vollar transactions are built, signed and combined exactly',
     'In aliencoinTransaction, vergeTransaction and vollarTransaction a created transaction has one input per request (id in wire order, output index, final sequence, length-prefixed lock script) and one output per request (amount, the standard script of the address\' kind) in order; requests that cannot be written (malformed id, script or address, over 252 inputs or outputs or script bytes) are refused. The digest of input i commits to exactly the network\'s signing message. Decoding an empty transaction fails with an error or returns exactly the fields of the bytes, never crashing. Combining accepts only signatures that verify, under their key, over the digest of their own input, and the result is the transaction with those signatures at those inputs.',
     'every list of inputs and outputs of any length, every string offered for decoding or combining, every signature list',
     'The layouts depend on counts, address kinds and positions; malformed inputs and signatures at the wrong input are not tested.',
     [p + '/' + f for p in ('aliencoinTransaction', 'vergeTransaction', 'vollarTransaction') for f in U], [('builder', 'txStruct.go'), ('digest', 'txStruct.go'), ('combining', 'transaction.go')],
     'All functions from request to signed transaction are proved for any number of inputs and outputs, callee by contract, with hashes and curve operations uninterpreted.')

prop('P16', 'Ripple payments are serialised, signed and combined exactly',
     'In rippleTransaction a created payment carries every requested value (sender, recipient, sequence, amount, fee, destination tag, last ledger, memos, public key) in its field with the field\'s identifying bytes, in canonical order; a value that does not fit its field (amounts of 2^62 drops or more, tags outside 32 bits, over-long memos, bad addresses or keys) is refused. The signing digest is that of the serialisation without signature. Signing yields a signature that verifies, with low s. Combining only accepts a signature that verifies over this transaction under the given key and places its DER form at the signature field, changing nothing else. No text offered for combining crashes.',
     'every request, key, signature and string offered',
     'Field prefixes, length forms and value limits depend on the values; tests build two payments.',
     ['rippleTransaction/' + f for f in ('transaction.go', 'txStruct.go')], [('fields', 'txStruct.go'), ('combining', 'transaction.go')],
     'Every function from request to signed transaction is proved, callee by contract, with hashes and curve operations uninterpreted.')

prop('P17', 'MOAC transactions are canonical RLP, read back and signed exactly',
     'In moacchainTransaction each number is written as the shortest RLP item and each list with the shortest head; a created transaction carries every requested value (nonce, price, limit, recipient, amount) in its field with the chain id in place of the signature, or is refused. Reading an item or transaction back gives the written fields, and malformed bytes are refused without a crash. Signing yields a verifying signature. Combining enters exactly r, s (without leading zeros) and v (with the chain id folded in) of a signature that verifies over this transaction, changing nothing else.',
     'every request, every byte string offered for reading, every signature and network',
     'RLP has separate forms by value and length (leading zeros, 55-byte limit); tests use one short transaction.',
     ['moacchainTransaction/' + f for f in ('transaction.go', 'txStruct.go')], [('items and heads', 'txStruct.go'), ('combining', 'transaction.go')],
     'Every function is proved, callee by contract (item reading and signature insertion are opaque with proved contracts in the transaction-level lemmas); values of big integers below 2^256.')

prop('P18', 'btcLikeTxDriver transactions are built, hashed, signed and verified exactly',
     'In btcLikeTxDriver a created transaction has one input per request (id in wire order, index, the sequence lock time and replaceability call for) and one output per request with the requested amount and the standard script of its address (key hash, script hash or bech32 program), or creation fails. Its bytes are the wire format with every field in place; any byte string offered for decoding is refused or decoded into fields that make up exactly these bytes, without a crash. The digest of each input covers the whole transaction with that input\'s script, in the legacy or witness layout its lock script calls for. Inserting signatures puts each into the unlocking script or witness of its own input (or the required number into a multi-signature witness), and changes neither anything else nor the caller\'s data; verification accepts exactly when every input carries a verifying signature of its kind.',
     'every request, byte string, key list, signature list and unlock data',
     'Witness, nested witness, plain and multi-signature inputs mix freely; tests run one combination each and print the result.',
     ['btcLikeTxDriver/' + f for f in ('transaction.go', 'txStruct.go', 'txIn.go', 'txOut.go', 'multiSig.go', 'witness.go')], [('builder', 'txOut.go'), ('serialiser, decoder, digests', 'txStruct.go'), ('inserting, verifying', 'transaction.go'), ('multi-signature addresses', 'multiSig.go')],
     'Builder, serialiser, decoder and multi-signature addresses are proved for any number of inputs, outputs and keys; digests, insertion, one-step signing and verification for one and two inputs (labelled bounded), over opaque parsing and serialisation.')


prop('P19', 'VSYS transfers are written, read, signed and verified exactly',
     'In virtualeconomyTransaction a created transfer carries the requested type, amount, fee, fee scale and the 26 bytes of the recipient\'s address in their places with the time of creation and an empty attachment; an address that does not decode to 26 bytes or a non-empty attachment is refused. Any byte string offered for reading is refused or is exactly a transfer whose fields are returned. Signing signs exactly the transaction\'s bytes and returns the key\'s own public key; verification accepts exactly the signatures that verify over those bytes under that key; the message to send names exactly these fields and this signature.',
     'every request, byte string, key and signature',
     'Tests build and send one transfer.',
     ['virtualeconomyTransaction/' + f for f in ('transaction.go', 'txDecode.go')], [('builder, signing', 'transaction.go'), ('reader', 'txDecode.go')],
     'Builder, reader, signing and verification are proved for all inputs over opaque address decoding (P02) and uninterpreted curve operations; the time stamp and the JSON message are only executed on generated inputs (labelled search, not counted as proved).')


prop('P20', 'Polkadot transfers are SCALE encoded, signed and combined exactly',
     'In polkadotTransaction every number is written in its SCALE compact form (all values up to 2^64-1); the message to sign is the transfer call (call code, recipient, amount), the 64-block era of the height, nonce, tip, both versions, genesis and block hash, in this order; the signed transaction is its length, version, sender, signature, era, nonce, tip and the same call. A zero amount or height, a malformed key, hash or call code is refused. Signing signs exactly the message; combining accepts only a signature that verifies under the sender\'s key over the message of this very transaction and then yields its signed transaction, otherwise nothing. The text handed out is read back as the same request.',
     'every request, number, call code, key, signature and text',
     'The compact form has nine layouts by magnitude and the fields depend on each other; tests print one transfer.',
     ['polkadotTransaction/' + f for f in ('codec.go', 'transaction.go', 'txEra.go', 'txMethod.go', 'txPayLoad.go', 'txStruct.go')], [('compact numbers', 'codec.go'), ('message and signed form', 'txStruct.go'), ('combining', 'transaction.go')],
     'Proved for all values, callee by contract, with the curve uninterpreted and JSON text opaque; the JSON round trip and one end-to-end run are only executed on generated inputs (labelled search, not counted as proved).')


prop('P21', 'WaykiChain transactions are written, hashed, signed and combined exactly',
     'In waykichainTransaction every number that is not negative is written in the chain\'s variable length form so that it reads back as itself; a transfer, account registration, contract call and coin transfer consist of exactly the requested height, register ID, recipient, fee, amount, contract and coin in the layout of that type, and the hash handed out is the double SHA-256 of the same bytes with version before type. Negative heights, fees and amounts, malformed register IDs, addresses, keys and contracts, names and contracts too long for their length byte and unknown types are refused. Signing signs exactly the given hash; combining accepts a transaction exactly when the signature verifies under the given key over the hash of these very bytes, and appends the signature.',
     'every request, number, register ID, text, key and signature',
     'The number format changes length at nine unusual boundaries, and four layouts each exist twice (bytes and hash); tests run one transaction of each type.',
     ['waykichainTransaction/' + f for f in ('transaction.go', 'txStruct.go', 'txUtils.go', 'txSignature.go')], [('layouts', 'txStruct.go'), ('number format', 'txUtils.go'), ('signing, combining', 'transaction.go')],
     'Layouts, number format, hashing, signing and combining are proved for all inputs; register IDs are taken as two hyphen-free texts around a hyphen, and that the regular expression accepts exactly digit runs is only searched; address decoding is P02, the DER form P06.')

prop('P22', 'Elastos transfers are written, hashed, signed and combined exactly',
     'In elastosTransaction a transaction consists of type, version, no attributes, every requested input (id in wire order, output number, final sequence) and every requested output (asset, amount, no lock, recipient) in order behind their numbers (below 128 each) and no lock time, and the hash handed out for each spending address once is the SHA-256 of exactly these bytes. Malformed ids, assets and addresses and empty lists are refused. Signing signs exactly the given hash. Combining succeeds only when every signature verifies over the hash of these bytes under the key it comes with, and then appends each signature with its key in order; otherwise nothing is returned.',
     'every list of inputs, outputs, keys and signatures, and every text',
     'Tests run one transfer with one input and output.',
     ['elastosTransaction/' + f for f in ('transaction.go', 'txIn.go', 'txOut.go', 'txStruct.go', 'txSignature.go', 'txUtils.go')], [('layout', 'txStruct.go'), ('combining', 'transaction.go')],
     'Layout of inputs, outputs and the whole, creation, signing and combining are proved for all inputs and lists of any length (counts below 128); the list of distinct spending addresses is only executed on generated inputs (labelled search). Address decoding is P02.')

prop('P23', 'Cosmos style messages say what was asked, are signed and verified exactly',
     'In cosmosTransaction and evaioTransaction every requested value (chain, account number, sequence, memo, fee, gas, sender, recipient, amounts) appears in its own field and nowhere else, a zero amount is no coin and a fee without coins is an empty list; the text to sign is the JSON of exactly these fields in alphabetical order of keys and the hash handed out is its SHA-256; the message to send carries the same messages, fee and memo with the signature and key given. Signing signs exactly the given 32-byte hash; verification accepts exactly the signatures that verify over the hash of this text under the given key; malformed hashes, keys and signatures are refused without a crash.',
     'every request, list of messages and coins, text, key and signature',
     'Tests print one transfer.',
     [p + 'Transaction/' + f for p in ('cosmos', 'evaio') for f in ('coin.go', 'fee.go', 'message.go', 'transaction.go', 'txSend.go', 'txStruct.go')], [('fields', 'txStruct.go'), ('signing, verification', 'transaction.go')],
     'Field construction, signing and verification are proved for all inputs; the two JSON texts are compared with an independent writer on generated inputs only (labelled search).')

prop('P24', 'Ontology transfers are written, read, hashed, signed and combined exactly',
     'In ontologyTransaction an amount is pushed so that the virtual machine reads back the same number; a transfer of ONT, of ONG and a withdrawal of ONG is the contract call with exactly the requested sender, recipient and amount, method and contract; a transaction carries this call with the requested gas price, gas limit and payer (the sender when none is named) and no signature, and the hash handed out is the triple SHA-256 of all but the number of signatures. Unknown assets, malformed addresses and negative amounts are refused. Any byte string offered for reading is refused, without a crash, or is exactly the transaction returned. Signing signs exactly the given hash and returns the key\'s own public key. Combining succeeds only for an unsigned transaction when every signature verifies over its hash under the key it comes with, and then writes each signature with its key in order; otherwise nothing is returned.',
     'every request, amount, byte string, list of signatures, key and text',
     'Tests run four transfers.',
     ['ontologyTransaction/' + f for f in ('transaction.go', 'txInvokeCode.go', 'txSigPub.go', 'txStruct.go', 'txUtils.go')], [('layout, reading', 'txStruct.go'), ('contract call', 'txInvokeCode.go'), ('creating, combining', 'transaction.go')],
     'Pushing 64-bit amounts, the call, layout, creation, reading, signing and combining are proved for all inputs and signature lists of any length; calls with amounts above 64 bits are only executed on generated inputs (labelled search). Address decoding is P02, low s P05.')

prop('P25', 'BigBang transfers are written, hashed, signed and combined exactly',
     'In bigbangTransaction an address is accepted only when it carries the CRC-24Q of its public key and names exactly that key; a transfer consists of version, type, time, lock, anchor, every requested input in order behind their number, the recipient\'s key, amount, fee and data with its length, and the hash handed out is the BLAKE2b-256 of exactly these bytes. Malformed anchors, inputs and addresses, empty lists, zero amounts and fees, and lists or data too long for their length byte are refused without a crash. Signing signs exactly the given hash; combining accepts a transaction exactly when the signature verifies over its hash under the given key, and then appends it with its length.',
     'every request, list of inputs, text, key and signature',
     'Tests print one transfer.',
     ['bigbangTransaction/' + f for f in ('address.go', 'crc24.go', 'transaction.go', 'txIn.go', 'txStruct.go', 'txUtils.go')], [('layout', 'txStruct.go'), ('address', 'address.go'), ('combining', 'transaction.go')],
     'Inputs, fields, layout, signing and combining are proved for all inputs and lists of any length; the checksum table is proved against the bitwise definition, its use for messages of at most four bytes (bounded); address text (library base 32), longer checksums and the time of creation are only executed on generated inputs (labelled search).')
