#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (python3 tool/gen_props.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAM = ['btcTransaction', 'bitcoincashTransaction', 'bitcoinsvTransaction', 'cxcTransaction', 'hcTransaction', 'omniTransaction', 'zencashTransaction']
def fam(*fs): return [p + '/' + f for p in FAM for f in fs]
P = []
def prop(id, title, statement, text, why, files, mech, note, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note))

prop('P01', 'Integer and byte-order codecs are exact in the bitcoin-family drivers',
     'In the btc, bch, bsv, cxc, hc, omni and zencash drivers, converting an integer to its fixed-width byte form gives exactly the little-endian (omni payloads: big-endian) bytes of that integer and converting back returns the same integer. Reversing a byte string or a hex string yields every byte once in opposite order, and byte-string comparison says equal exactly when length and every byte agree.',
     'every 16/32/64-bit integer, every byte string of every length, every hex string',
     'Tests sample a handful of transactions; a codec wrong for one bit pattern or one length corrupts amounts, indices and transaction ids only there.',
     fam('txUtils.go'),
     [('little/big-endian codecs', 'txUtils.go'), ('reversal and comparison', 'txUtils.go')],
     'Each codec, reversal and comparison function is proved against its specification for all inputs.')

LOWS = ['aliencoinTransaction/txSigPub.go', 'binancechainTransaction/utils.go', 'btcLikeTxDriver/signaturepubkey.go', 'cosmosTransaction/transaction.go', 'evaioTransaction/transaction.go', 'hypercashTransaction/txSignature.go', 'mateverseTransaction/txUtils.go', 'ontologyTransaction/txSigPub.go', 'rippleTransaction/txUtils.go', 'vergeTransaction/txSigPub.go', 'vollarTransaction/txSigPub.go']
prop('P05', 'Signatures are normalised to low-s without changing what they sign',
     'In every driver with a low-s rule (the bitcoin family, btcLikeTxDriver, aliencoin, verge, vollar, hypercash, mateverse, ripple, binancechain, cosmos, evaio on secp256k1; ontology on P-256) a normalised 64-byte signature keeps its r half unchanged, has an s half of exactly 32 bytes not above half the order of that curve, and that s is either the original s or the order minus it. This holds for every signature, including ones whose complement has leading zero bytes, and what the drivers\' signing functions return is always normalised.',
     'every 64-byte signature whose s is below the group order; every hash and key given to the signing functions',
     'Roughly one signature in 256 has a complement with a leading zero byte and one in 65536 two; tests sign a few fixed messages.',
     fam('SignaturePubkey.go') + LOWS, [('low-s normalisation', 'serilizeS'), ('signing functions', 'transaction.go')],
     'The normaliser is proved with exact 256-bit arithmetic for all signatures against the curve orders written out in the contract; the signing functions are proved to return its result, with the raw signature an arbitrary 64-byte value.')

DER = ['aliencoinTransaction/txSigPub.go', 'vergeTransaction/txSigPub.go', 'vollarTransaction/txSigPub.go', 'hypercashTransaction/txSignature.go', 'mateverseTransaction/txSigPub.go', 'rippleTransaction/txUtils.go', 'waykichainTransaction/txSignature.go', 'btcLikeTxDriver/signaturepubkey.go', 'btcLikeTxDriver/witness.go']
prop('P06', 'Signature scripts are strict DER and decode back to the same signature',
     'In the drivers that write DER signatures (the bitcoin family, btcLikeTxDriver incl. witnesses, aliencoin, verge, vollar, hypercash, mateverse, ripple, waykichain) every 64-byte signature is written as a length-prefixed DER sequence of two minimal positive integers followed, where the network has one, by the hash type (and, for single signatures, the pushed public key), and the lengths in the script are exact. Decoding a script (bitcoin family, btcLikeTxDriver) never reads outside it: it fails with an error or returns exactly the two integers padded to 32 bytes, the hash type and the public key found in that script, without altering the script.',
     'every 64-byte signature, hash type and public key; every byte string offered to the decoder',
     'Leading zeros and high bits of r and s decide the layout; the interesting cases have probability 1/256 and below and malformed scripts are not tested at all.',
     fam('SignaturePubkey.go') + DER, [('DER writer', 'SignaturePubkey.go'), ('DER reader', 'SignaturePubkey.go')],
     'Writer and reader are proved for all inputs, with inferred loop invariants for the zero-stripping and padding loops.')

prop('P07', 'Transactions are serialised field by field in the exact wire order',
     'In the bitcoin-family drivers a serialised transaction is exactly version, segwit marker when there is a witness, input count, each input (outpoint, script with its length, sequence), output count, each output (amount, script length, script), each witness, lock time, with nothing added, dropped or reordered for any number of inputs and outputs. Malformed fields (wrong widths, empty scripts, no inputs or outputs) are refused with an error.',
     'every transaction value: any number of inputs and outputs, any script contents, every input type, witness or not',
     'Tests cover transactions with one to three inputs; the layout must hold for every count and every mix of input types.',
     fam('txStruct.go', 'txIn.go', 'txOut.go'), [('transaction serialiser', 'txStruct.go'), ('input serialiser', 'txIn.go'), ('output serialiser', 'txOut.go')],
     'Serialiser equality with the specified concatenation is proved by loop invariants over the input and output sequences, no bound on their number.')

prop('P08', 'The message signed for an input commits to the whole transaction',
     'In the bitcoin-family drivers the bytes hashed for signing input i are, for legacy inputs, the whole transaction with input i carrying the script being spent, all other inputs empty, then the hash type; and for witness (and fork-id) inputs the BIP143 layout with the three digests over all outpoints, all sequences and all outputs, that input\'s own outpoint and sequence, the script code, the amount, the lock time and the hash type. Lock scripts are recognised only by their exact shape, zero amounts and other hash types are refused.',
     'every transaction, every input index, every lock and redeem script, every amount and hash type',
     'A field left out of the digest for one index or one script type still signs and verifies against itself in the tests; only an independent layout for all inputs shows it.',
     fam('txHash.go'), [('legacy and BIP143 message', 'txHash.go'), ('script classification', 'txHash.go')],
     'Each message builder is proved equal to the specified layout for all transactions and indices; hashing is an uninterpreted function. The per-input driver function is proved for up to two inputs (labelled bounded) over those contracts.')

prop('P10', 'Raw transaction decoding is total and loses no bytes',
     'In the bitcoin-family drivers decoding any byte string returns either an error or a transaction, never crashes and never reads outside the string. An accepted non-witness transaction has fields that, put back in wire order, are exactly the input bytes.',
     'every byte string of every length',
     'Truncations and hostile lengths at every offset are unbounded; the tests decode only well-formed transactions they produced themselves.',
     fam('txStruct.go'), [('raw transaction decoder', 'txStruct.go')],
     'Every slice and index operation of the decoder is an obligation discharged for all inputs; the partition of the input is proved with the decoder\'s loop invariants.')

exec(open(os.path.join(V, 'tool', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tool', 'more_props.py')) else None

P.sort(key=lambda p: p['id'])
NA = json.load(open(os.path.join(V, 'tool', 'na.json'))) if os.path.exists(os.path.join(V, 'tool', 'na.json')) else []
na_ids = {n['property'] for n in NA}
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
    'checks': [{'property': p['id'], 'quick_cmd': 'bash check.sh %s' % p['id'], 'thorough_cmd': 'bash check.sh %s --tier thorough' % p['id'],
        'technique': 'contract lemmas on the real functions (go/ssa of /repo\'s source) discharged by symbolic execution with inferred loop invariants and z3; counterexamples replayed on the compiled code',
        'level': 'proof', 'level_note': p['note']} for p in P if p['id'] not in na_ids],
    'not_applicable': NA}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
