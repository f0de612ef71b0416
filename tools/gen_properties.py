"""Writes /verif/properties.jsonl (kept as a script so that the file is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Base58Check text decodes only to the exact payload it was made from",
 "Encoding any byte string as Base58Check and decoding it gives the same bytes back, leading zero bytes included, and the text is the one every other Bitcoin implementation writes. A text is accepted only if it is the encoding of some payload with a matching checksum; every other text (one character changed, dropped, added or swapped, a character outside the alphabet) is rejected with the library's base58 error.",
 ["inputs"], "all byte strings, and all texts (in particular every text within a small edit distance of a valid one)",
 "The tests decode a few dozen fixed strings; leading-zero counts, payload lengths and corrupted texts are not enumerated.",
 ["bitforge/encoding.py", "bitforge/utils/encoding.py"],
 [("base conversion with leading-zero prefix count", "utils/encoding.py to_long/from_long"), ("checksum comparison", "utils/encoding.py a2b_hashed_base58"), ("error translation", "encoding.py decode_base58h")],
 ["encode_base58h / decode_base58h results and exceptions"])

prop("C02", "Private keys survive WIF, hex and binary exactly; bad ones are refused",
 "For every secret in [1, order-1], either network and either compression setting, exporting a private key to WIF, hexadecimal or bytes and importing it again gives an equal key with the same network and compression, and the exported text is the standard one. An import succeeds only for the standard form of a valid key: secrets outside the range, unknown prefixes, wrong lengths, wrong compression markers and bad checksums are refused with an error of the private key class.",
 ["inputs", "histories"], "all secrets, networks, compression flags and conversion sequences; all WIF payloads (prefix, length, suffix) and malformed texts",
 "Tests round-trip one random key and fixed vectors; secrets with leading zero bytes, the bounds of the range and the full prefix/length/suffix space are not covered.",
 ["bitforge/privkey.py", "bitforge/encoding.py", "bitforge/networks.py"],
 [("range check", "privkey.py PrivateKey.__new__"), ("WIF layout", "privkey.py from_wif/to_wif"), ("fixed-width integers", "encoding.py encode_int/decode_int")],
 ["PrivateKey constructors, attributes and exports"])

prop("C03", "Addresses keep hash, network and type through every encoding",
 "For every 20-byte hash, network and address type, writing an address as text, hex or bytes and reading it again gives an equal address, and the text is the standard Base58Check form. Reading accepts exactly 21-byte payloads whose version byte belongs to a known network and type, and reports that network and type; everything else is refused with an error of the address class. The address of a public key or script is the standard hash of its exact serialized bytes on the requested network.",
 ["inputs", "histories"], "all hashes, networks, types, version bytes, payload lengths, corrupted texts, public keys and scripts",
 "Tests use fixed vectors; the version-byte and length space, leading-zero hashes and single-character corruption are not enumerated.",
 ["bitforge/address.py", "bitforge/networks.py", "bitforge/encoding.py"],
 [("version byte classification", "address.py classify_bytes"), ("length checks", "address.py from_bytes/__new__"), ("hashing", "address.py from_public_key/from_script")],
 ["Address constructors, attributes and exports; PublicKey.to_address, PrivateKey.to_address"])

prop("C04", "Public keys are the secret's curve point; only valid encodings are accepted",
 "The public key of every valid secret is that multiple of the secp256k1 generator, with the network and compression of the private key. Reading a binary or hexadecimal public key succeeds exactly for the 33-byte compressed and 65-byte uncompressed encodings of points on the curve with coordinates inside the field, and writing it again gives the same bytes; all else is refused with an error of the public key class.",
 ["inputs"], "all secrets; all prefixes, lengths, x and y coordinates (on and off the curve, inside and outside the field)",
 "Tests use one key pair and three malformed inputs; coordinates with leading zeros, non-residues, x >= p and length errors are never tried.",
 ["bitforge/pubkey.py", "bitforge/utils/encoding.py", "bitforge/utils/ecdsa.py", "bitforge/utils/ellipticcurve.py", "bitforge/utils/secp256k1.py"],
 [("scalar multiplication", "utils/ellipticcurve.py Point.__mul__"), ("decompression", "utils/ecdsa.py public_pair_for_x, utils/numbertheory.py modular_sqrt"), ("point validation", "utils/ecdsa.py is_public_pair_valid")],
 ["PublicKey constructors, pair, compressed, to_bytes/to_hex"])

prop("C05", "Curve arithmetic, modular roots and ECDSA helpers are exact",
 "On every prime-order curve, point addition, doubling and scalar multiplication follow the group law, including the point at infinity and inverses; modular inverses and square roots are correct for every odd prime. The ECDSA helpers agree with the standard: deterministic nonces follow RFC 6979, signatures verify, verification accepts exactly the valid pairs without raising, and key recovery returns the signer's key and only keys that verify.",
 ["inputs"], "all prime-order short Weierstrass curves over small fields, all their points, scalars, keys, digests and signature pairs; all residues of small primes",
 "No test calls these helpers directly, and on the 256-bit curve the special cases (infinity, equal x, r reduced by the order) can never be reached by sampling.",
 ["bitforge/utils/ellipticcurve.py", "bitforge/utils/ecdsa.py", "bitforge/utils/numbertheory.py"],
 [("group law", "utils/ellipticcurve.py Point.__add__/double/__mul__"), ("nonce derivation", "utils/ecdsa.py deterministic_generate_k"), ("sign/verify/recover", "utils/ecdsa.py")],
 ["bitforge.utils.Point, CurveFp, sign, verify, possible_public_pairs_for_signature, public_pair_for_x"])

prop("C06", "Signatures by a private key are canonical, valid, and bound to key and digest",
 "Whatever the entropy, signing a digest with a valid private key gives a strictly DER-encoded signature with low S that verifies, by the standard ECDSA equations, for the public key of that secret and that digest. Checking a signature with a private key returns true exactly for signatures valid for its public key and that digest; a tampered signature, another digest or another key is never confirmed.",
 ["inputs", "fault_sequences"], "all secrets, digests, entropy streams and tampered signatures",
 "No test signs or verifies anything with a private key.",
 ["bitforge/privkey.py"],
 [("DER canonical signing", "privkey.py PrivateKey.sign"), ("digest verification", "privkey.py PrivateKey.verify")],
 ["PrivateKey.sign and PrivateKey.verify results"])

prop("C07", "HD derivation follows BIP32 along every path, privately and publicly",
 "Every key reached from a seed or an extended key by any sequence of normal and hardened derivations has the private key, chain code, depth, index, parent fingerprint and network that BIP32 defines. Deriving publicly and privately commute for normal indexes, hardened indexes (however given) are refused on public keys, and no derivation changes the key it starts from.",
 ["inputs", "histories"], "all seeds, starting keys (leading-zero secrets included) and derivation paths, normal and hardened, on both networks",
 "No test uses HD keys at all.",
 ["bitforge/hdprivkey.py", "bitforge/hdpubkey.py"],
 [("child key derivation", "hdprivkey.py/hdpubkey.py derive"), ("fingerprint", "calculate_fingerprint"), ("master key", "hdprivkey.py from_seed")],
 ["HDPrivateKey/HDPublicKey attributes, derive, to_hd_public_key, to_string"])

prop("C08", "Extended keys survive their text form exactly, and malformed ones are refused",
 "For every extended private or public key, whatever its depth, index, parent fingerprint, chain code and network, the text form is the BIP32 serialization and reading it gives an equal key, and every accepted text is written back unchanged. Texts with a bad checksum, another length, an unknown or opposite version, a non-zero private key pad, an out-of-range secret or an invalid point are refused.",
 ["inputs"], "all field values (each at its bounds, in all combinations) and all malformed payloads",
 "No test uses HD keys at all.",
 ["bitforge/hdprivkey.py", "bitforge/hdpubkey.py", "bitforge/utils/encoding.py"],
 [("field layout", "from_string/to_string and the *Start/*End offsets"), ("version to network", "networks.find")],
 ["HDPrivateKey/HDPublicKey.from_string, to_string, attributes, exceptions"])

prop("C09", "The transaction wire format is exact and reversible",
 "Every transaction, input and output is serialized to exactly its Bitcoin wire format, reading that back gives an equal object, and the reported ID is the standard transaction ID. Conversely, whenever bytes are accepted they are serialized back unchanged; truncated data, trailing data, over-long integers and impossible counts are refused with a library error.",
 ["inputs"], "all numbers of inputs and outputs, script lengths and field values; all byte strings (in particular all within one edit of a valid transaction)",
 "No test serializes or parses a transaction.",
 ["bitforge/transaction/transaction.py", "bitforge/transaction/input.py", "bitforge/transaction/output.py", "bitforge/tools.py", "bitforge/encoding.py"],
 [("field order and widths", "to_bytes/from_buffer"), ("variable-length counts", "encoding.py encode_varint, tools.py read_varint"), ("ID", "transaction.py get_id")],
 ["Transaction/Input/Output to_bytes, to_hex, from_bytes, from_hex, get_id"])

prop("C10", "Integers and byte buffers are encoded exactly or refused, never altered",
 "Every non-negative integer is written in exactly its big- or little-endian or variable-length form and read back as the same number; an integer that does not fit the requested width, or is negative, is refused instead of being truncated. Reading from a buffer returns exactly the next bytes in order and consumes exactly those, whatever sequence of reads and writes came before, and asking for more than is left is refused without consuming anything.",
 ["inputs", "histories"], "all integers and widths (at every power-of-256 and variable-length boundary); all sequences of buffer reads and writes",
 "The helpers are only exercised indirectly, with small numbers.",
 ["bitforge/encoding.py", "bitforge/tools.py"],
 [("fixed-width integers", "encoding.py encode_int/decode_int"), ("varints", "encoding.py encode_varint, tools.py read_varint"), ("cursor", "tools.py Buffer.read")],
 ["encode_int, decode_int, encode_varint, Buffer.read, Buffer.read_varint, Buffer.write"])

prop("C11", "Signing produces valid inputs and changes nothing else, in any order",
 "Signing an input of a transaction gives a transaction in which that input carries signatures valid for the standard signature hash of the requested type over the whole transaction, and in which every other input, output and field is unchanged; the original transaction is not modified. This holds for any order and interleaving of signing the inputs: a signature made earlier stays valid after the others are added. A wrong number of keys, an unknown signing method or a bad input index is refused and never yields a transaction that only looks signed.",
 ["histories", "inputs"], "all transactions with up to three inputs of each kind, all signing orders, sequence numbers, lock times, versions and outputs",
 "No test signs a transaction.",
 ["bitforge/transaction/transaction.py", "bitforge/transaction/input.py", "bitforge/script/script.py"],
 [("signature payload", "transaction.py Transaction.sign"), ("signed scripts", "input.py AddressInput.sign, ScriptInput.sign")],
 ["the transaction returned by Transaction.sign, serialized"])

prop("C12", "An input says it can be signed exactly when signing yields a valid spend",
 "A multi-signature input reports that a list of keys can sign exactly when it has as many keys as required, all different and all among the public keys of the input, whatever their order or network; an address input does so exactly for the single key of its address. When the answer is yes, signing with those keys produces a script that satisfies the locking condition, with one signature per key in the order the condition demands.",
 ["inputs", "histories"], "all m-of-n conditions with n up to 3 (more in the thorough tier), all key lists including repeated, foreign and reordered keys, compressed and uncompressed, both networks",
 "Tests ask about five key lists for one condition and never check the script produced.",
 ["bitforge/transaction/input.py", "bitforge/script/script.py"],
 [("eligibility", "input.py can_sign"), ("signature order", "input.py MultisigInput.sign"), ("multisig redeem script", "script.py RedeemMultisig")],
 ["can_sign results and the scripts produced by signing"])

prop("C13", "Outputs lock exactly the given amount to exactly the given destination",
 "An output created for an address, script or group of public keys carries the given amount and the standard script that only the owner of that destination can satisfy: pay-to-pubkey-hash or pay-to-script-hash for an address according to its type, pay-to-script-hash for scripts and multi-signature groups. The matching input is built on the same condition, so what one side locks the other can redeem. Data outputs carry the given data and no money, and refuse more than 80 bytes.",
 ["inputs"], "all addresses (networks, types, hashes), scripts, m-of-n groups, amounts and data lengths",
 "Tests only check the Python class of a few outputs, never the script.",
 ["bitforge/transaction/output.py", "bitforge/transaction/input.py", "bitforge/script/script.py"],
 [("output scripts", "output.py *.create"), ("input placeholders", "input.py *.create")],
 ["script bytes and amounts of created outputs and inputs"])

prop("C14", "Scripts survive their binary form byte for byte",
 "Reading any byte string as a script either fails with a library error, exactly when a push runs past the end, or gives a script that serializes to the same bytes. Serializing any script and reading it back gives an equal script, and compiling data uses the shortest push for its length. The hash of a script is the standard hash of exactly those bytes.",
 ["inputs"], "all byte strings (exhaustively for short ones), all push opcodes at all length boundaries, all schematics",
 "Tests parse a handful of scripts and never serialize a variable-length push.",
 ["bitforge/script/script.py", "bitforge/script/instruction.py", "bitforge/script/opcode.py"],
 [("parser", "script.py Script.from_buffer"), ("serializer", "instruction.py Instruction.to_bytes"), ("push selection", "opcode.py push_for")],
 ["Script.from_bytes, to_bytes, to_hex, to_hash, compile"])

prop("C15", "Scripts survive their text form, and malformed text is refused",
 "Writing any script of named operations and pushes as text and reading it again gives an equal script, and operation names have their standard Bitcoin numbers. A text is accepted only if every token is a known operation or a push with a consistent size and hexadecimal data; anything else is refused with a library error.",
 ["inputs"], "all scripts over all named operations and push forms up to a length; all token sequences over a small alphabet of well- and ill-formed tokens",
 "Tests read four texts and six malformed ones.",
 ["bitforge/script/script.py", "bitforge/script/instruction.py", "bitforge/script/opcode.py"],
 [("tokenizer", "script.py Script.from_string"), ("printer", "instruction.py to_string"), ("opcode table", "opcode.py")],
 ["Script.from_string, to_string, Opcode.from_name, Opcode.name"])

prop("C16", "Scripts are recognized as the standard template they match, and no other",
 "Every script that has the form of a standard template (pay-to-pubkey-hash and pay-to-script-hash inputs and outputs, data outputs, multi-signature conditions) is recognized as that template however it was built, and its parts (keys, hashes, signatures, data, required count, embedded script) are read back exactly as they were put in. Scripts of any other form are left generic, and recognizing a script never fails or changes its bytes.",
 ["inputs"], "all instruction sequences over a structural alphabet up to a length; all template parameters",
 "Tests check one instance of each template and two negatives.",
 ["bitforge/script/script.py", "bitforge/transaction/input.py", "bitforge/transaction/output.py"],
 [("classification", "script.py Script.classify and is_valid"), ("getters", "script.py get_*"), ("object classes", "Input.create, Output.create")],
 ["class of Script.create/from_bytes/from_string results, getters, class of Input.create/Output.create results"])

prop("C17", "Script numbers encode and decode as Bitcoin defines them",
 "Every integer is encoded as the unique shortest script number and decodes to itself, and every byte string within the size limit decodes to its sign-and-magnitude value. Longer strings are refused, and when minimal encoding is required exactly the shortest encodings are accepted.",
 ["inputs"], "all byte strings up to two bytes and boundary strings up to six; all integers near every byte and sign boundary",
 "Tests encode three numbers and never decode one directly.",
 ["bitforge/encoding.py"],
 [("codec", "encoding.py encode_script_number/decode_script_number")],
 ["encode_script_number, decode_script_number"])

prop("C18", "The interpreter executes every non-signature operation as Bitcoin does",
 "For any pair of scripts without signature operations, verification gives the verdict of Bitcoin's reference rules: every stack, alt-stack, conditional, comparison, arithmetic and hash operation has its standard effect, and operations that lack operands, are disabled, reserved or unknown, or conditionals that do not balance, make the script fail.",
 ["inputs", "programs"], "all programs up to a length over all 256 opcodes and a set of boundary operands, from all small stacks",
 "Tests run six short scripts; most operations are never executed.",
 ["bitforge/script/interpreter.py", "bitforge/encoding.py"],
 [("operation dispatch", "interpreter.py Interpreter.step"), ("driver", "interpreter.py verify/evaluate"), ("truth value", "interpreter.py cast_to_bool")],
 ["Interpreter.verify verdicts (the stack is observed through the script language itself)"],
 [{"name": "stack, altstack, vf_exec", "meaning": "machine state", "where": "Interpreter"}])

prop("C19", "Interpreter limits, flags, P2SH and lock times are enforced exactly",
 "Verification enforces the consensus limits (script size, element size, operation count with multi-signature keys, stack depth at every step) exactly at their bounds, executed or not as Bitcoin defines. Each verification flag (P2SH, push-only, minimal data, null dummy, discouraged NOPs, lock time) has its standard effect when set and none when unset, in every combination.",
 ["inputs", "configurations", "programs"], "all flag combinations over scripts placed at and around every limit; all redeem scripts over a small alphabet; all lock time, sequence and operand boundary combinations",
 "No test sets a flag or approaches a limit.",
 ["bitforge/script/interpreter.py", "bitforge/script/instruction.py", "bitforge/script/script.py"],
 [("limits", "interpreter.py evaluate/step"), ("flags", "interpreter.py SCRIPT_VERIFY_*"), ("minimal pushes", "instruction.py is_minimal_push"), ("lock time", "interpreter.py check_lock_time")],
 ["Interpreter.verify verdicts"])

prop("C20", "A spend verifies exactly when its signatures do; verification never raises",
 "Verification of any scripts always ends with true or false and never with an exception. A spend whose script demands signatures is accepted exactly when it carries valid signatures for its transaction, input and keys; a missing, forged, misplaced or tampered signature is never accepted.",
 ["inputs", "programs"], "all scripts up to two bytes on both sides and all flags; all standard spends with valid and tampered signatures",
 "No test executes a signature operation or an ill-formed script.",
 ["bitforge/script/interpreter.py"],
 [("signature operations", "interpreter.py OP_CHECKSIG/OP_CHECKMULTISIG branches"), ("fail-closed evaluation", "interpreter.py evaluate")],
 ["Interpreter.verify verdicts and exceptions"])

prop("C21", "Amounts convert between units without losing or gaining a satoshi",
 "For every amount of up to 21 million bitcoins, of either sign, giving it in bitcoins, millibitcoins, bits or satoshis produces exactly that number of satoshis, and each unit reads back as the closest number to that amount. Fiat conversion is the nearest satoshi to value over rate.",
 ["inputs"], "all amounts in satoshis (exhaustively for small ones, and around every decimal boundary up to the 21 million cap), all units, fiat values and rates",
 "Tests convert four amounts.",
 ["bitforge/unit.py"],
 [("rounding", "unit.py _set_values")],
 ["Unit(...).satoshis/bits/mbtc/btc, at_rate, from_fiat"])

prop("C22", "Payment URIs keep address, amount and texts exactly; invalid ones are refused",
 "Writing a payment URI and reading it again gives the same address, the same amount to the satoshi (written as a plain decimal), and the same label, message, payment URL and other parameters whatever characters they contain, with nothing added. A URI is valid exactly when it has the bitcoin scheme, a valid address and, if present, a finite non-negative amount; asking whether a text is valid never raises.",
 ["inputs", "histories"], "all addresses, amounts, parameter subsets and values over reserved, blank and non-ASCII characters; all short malformed URIs",
 "Tests use about twenty fixed URIs.",
 ["bitforge/uri.py", "bitforge/unit.py", "bitforge/address.py"],
 [("parser", "uri.py URI.parse/__init__"), ("writer", "uri.py to_uri")],
 ["URI attributes, to_uri, is_valid"])

prop("C23", "Malformed input is refused with the library's own printable errors",
 "Whatever text or bytes are given to the functions that read keys, addresses, scripts, transactions and URIs, they either return an object or raise an error of the library (for URIs and extended keys also a value error); nothing else escapes. Every such error has a readable description, and errors of keys and addresses belong to the error family of their class.",
 ["inputs"], "all short strings over an alphabet of troublesome characters and bytes, and all single edits of valid inputs, for every reading function",
 "Tests try at most three malformed inputs per function and never print an error.",
 ["bitforge/errors.py", "bitforge/encoding.py", "bitforge/privkey.py", "bitforge/pubkey.py", "bitforge/address.py", "bitforge/script/script.py", "bitforge/transaction/transaction.py", "bitforge/uri.py"],
 [("error hierarchy", "errors.py"), ("error translation", "except clauses of from_*")],
 ["exceptions of from_* functions, str() and repr() of them"])

prop("C24", "Objects are immutable values: equal when their content is, and hashable",
 "Keys, addresses, scripts, instructions, inputs, outputs, transactions and extended keys are equal exactly when their contents are equal, however they were built, equal objects have equal hashes, and all can be used in sets and dictionaries. Their fields cannot be reassigned, and neither changing the data they were built from nor changing what they returned alters them.",
 ["inputs", "histories"], "all pairs of objects from a pool in which every field varies and every construction route is used; all sequences of mutation attempts",
 "Tests compare a few objects and never hash or mutate one.",
 ["bitforge/privkey.py", "bitforge/pubkey.py", "bitforge/address.py", "bitforge/networks.py", "bitforge/script/instruction.py", "bitforge/script/script.py", "bitforge/transaction/transaction.py"],
 [("namedtuple bases", "Base* classes"), ("defensive copies", "Buffer.read, tuple()")],
 ["==, !=, hash(), attribute assignment, serialization before and after"])

prop("C25", "No result depends on what was called before",
 "Every operation of the library gives the same result whatever operations ran earlier in the process, on the same or other objects: nothing is remembered between calls. In particular an interpreter that is reused gives the verdict a new one would, and objects that share a secret, hash, script or index but differ elsewhere never get each other's results.",
 ["histories"], "all sequences up to a length over an alphabet of operations on deliberately colliding objects",
 "Tests run each operation once, mostly on fresh unrelated objects.",
 ["bitforge/script/interpreter.py", "bitforge/privkey.py", "bitforge/pubkey.py", "bitforge/address.py", "bitforge/uri.py", "bitforge/transaction/transaction.py", "bitforge/hdprivkey.py"],
 [("reinitialization", "interpreter.py initialize/verify"), ("pure functions, no caches", "whole package")],
 ["results of every call in a sequence, compared with a fresh process"])

prop("C26", "Concurrent calls on separate objects do not affect each other",
 "When two threads use the library at the same time on their own objects, each gets the result it would get alone, wherever one is interrupted by the other.",
 ["schedules"], "all interleavings with one preemption at every executed source line of the library (two in the thorough tier), for all pairs of operations from an alphabet",
 "No test uses threads, and free-running threads would sample only a few interleavings.",
 ["bitforge/tools.py", "bitforge/encoding.py", "bitforge/script/interpreter.py", "bitforge/transaction/transaction.py", "bitforge/utils/ellipticcurve.py", "bitforge/utils/encoding.py"],
 [("no shared mutable state", "module level of the whole package")],
 ["results of both threads"])

prop("C27", "New secrets and seeds come from the system's entropy, all of it",
 "A private key or HD seed generated without an explicit value is always valid and is determined by the operating system's entropy source, of which it consumes at least 256 bits: different entropy gives a different key, and the state of the ordinary pseudo-random generator has no influence. The same entropy source provides or leaves unused the nonces of signatures, so that signatures of different digests never share a nonce.",
 ["fault_sequences", "inputs"], "all scripted answers of the entropy source from a boundary alphabet, with fixed and varied pseudo-random generator states",
 "The only test generates two keys and checks that they differ.",
 ["bitforge/privkey.py", "bitforge/hdprivkey.py"],
 [("system random number generator", "privkey.py rng/random_secret"), ("os.urandom", "hdprivkey.py from_seed")],
 ["generated secrets under a scripted entropy source, r values of signatures"])

prop("C28", "The signature format check accepts exactly strict DER",
 "The check of signature formats accepts a byte string exactly when it is a strictly DER-encoded ECDSA signature followed by one hash type byte, as defined by BIP66: correct tags and lengths, positive integers without superfluous padding, 9 to 73 bytes in total. It answers true or false for every byte string and never raises.",
 ["inputs"], "all byte strings over the structural fields of a signature: total length, tags, integer lengths and leading bytes, at and around every bound",
 "No test calls it.",
 ["bitforge/signature.py"],
 [("BIP66 rules", "signature.py validate_signature")],
 ["validate_signature results"])

prop("C29", "The low-level key and address helpers read back exactly what they write",
 "The helpers behind the classes (WIF texts, hash and point to address, SEC encodings of points, 32-byte integers) write the standard form for every value, prefix and compression, and the matching readers return exactly the value, prefix and compression written. Their readers accept exactly well-formed texts with an allowed prefix (WIF payloads of 32 key bytes with an optional compression marker 01; pay-to-pubkey-hash addresses of 20 bytes; SEC encodings of points on the curve) and raise an encoding or value error otherwise; the questions whether a text is valid agree with the readers and never raise.",
 ["inputs"], "all prefixes x payload lengths x endings, all single edits of valid texts, secrets, hashes and points at their bounds, sets of allowed prefixes",
 "The tests call only a few of these helpers, with one key.",
 ["bitforge/utils/encoding.py"],
 [("WIF payload layout", "utils/encoding.py wif_to_tuple_of_prefix_secret_exponent_compressed"), ("SEC encodings", "utils/encoding.py sec_to_public_pair"), ("addresses", "utils/encoding.py bitcoin_address_to_hash160_sec_with_prefix")],
 ["results and errors of the helpers"])

prop("C30", "Operations, instructions and scripts report their kind exactly",
 "Every operation reports its number, order, whether it pushes data and how much it can push, and the small number it stands for, as Bitcoin defines them; the operation chosen for a number or a data length is the right (shortest) one, and impossible ones are refused. Every instruction says exactly whether it is the minimal push of its data, and every script exactly whether it only pushes data, whether it is the pay-to-script-hash form, and what its structure is.",
 ["inputs"], "all operations and ordered pairs, all numbers and lengths around the bounds, all push operations x data lengths, all short sequences of instructions, all one-byte edits of script hash outputs",
 "The tests check a few operations and lengths.",
 ["bitforge/script/opcode.py", "bitforge/script/instruction.py", "bitforge/script/script.py"],
 [("push ranges", "opcode.py is_const_push/is_var_push/push_for/data_length_max"), ("minimal pushes", "instruction.py is_minimal_push"), ("P2SH form", "script.py is_script_hash_out/is_push_only")],
 ["results and errors of the methods"])

prop("C31", "Networks are told apart by their standard constants",
 "The prefixes, ports and magic numbers of both networks are the standard ones, and looking a network up by a constant gives that network or none at all. Every text (WIF, address, extended key) carries the prefix of its kind and network; it is read as that kind and network and refused by the readers of all other kinds, and texts with any other prefix are refused. Unknown network names are refused with a library error.",
 ["inputs"], "all prefix attributes x values around all standard ones, all prefix bytes of all payload kinds x all readers, all single edits of names",
 "The tests look up one network by one attribute.",
 ["bitforge/networks.py", "bitforge/address.py", "bitforge/privkey.py", "bitforge/hdprivkey.py", "bitforge/hdpubkey.py"],
 [("constants", "networks.py livenet/testnet"), ("lookup", "networks.py find"), ("prefix of each kind", "from_bytes/from_wif/from_string of the classes")],
 ["lookup results, written prefixes, networks of objects read"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
