#!/usr/bin/env python3
"""Behaviour-preserving edits, to see that the checks stay quiet on them (a development aid).
refactor.py DIR   applies them all to the copy of /repo in DIR."""
import sys, os
D = sys.argv[1]; assert os.path.realpath(D) != '/repo'
def E(f, *pairs):
    p = os.path.join(D, 'bitforge', f); s = open(p).read()
    for a, b in pairs:
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b, 1)
    open(p, 'w').write(s)

# integers through int methods, a table for varints
E('encoding.py',
 ("""    if integer == 0:
        return chr(0) if length is None else chr(0) * length

    data = bytearray()

    while integer > 0:
        data.append(integer & 0xff)
        integer >>= 8

    if length is not None:
        zeros = bytearray(length)
        data = (data + zeros)[:length]

    if big_endian:
        data.reverse()

    return bytes(data)
""", """    order = 'big' if big_endian else 'little'
    if length is None:
        length = max(1, (integer.bit_length() + 7) // 8)

    return integer.to_bytes(length, order)
"""),
 ("""    if not big_endian:
        bytes = reversed(bytes)

    integer = 0

    for char in bytearray(bytes):
        integer <<= 8
        integer += char

    return integer
""", """    return int.from_bytes(bytearray(bytes), 'big' if big_endian else 'little')
"""),
 ("""    if integer < 253:
        return encode_int(integer)

    elif integer <= 0xFFFF:
        return chr(253) + encode_int(integer, length = 2, big_endian = False)

    elif integer <= 0xFFFFFFFF:
        return chr(254) + encode_int(integer, length = 4, big_endian = False)

    else:
        return chr(255) + encode_int(integer, length = 8, big_endian = False)
""", """    if integer < 253:
        return encode_int(integer)

    for marker, length in VARINTS:
        if length == 8 or not integer >> (8 * length):
            return chr(marker) + encode_int(integer, False, length)
"""),
 ("def encode_varint(", "VARINTS = ((253, 2), (254, 4), (255, 8))\n\n\ndef encode_varint("),
 ("""    if len(bytes) == 0:
        number = 0

    elif bytes[-1] & 0x80:
        bytes = bytes[:-1] + encode_int(bytes[-1] & 0x7f)
        number = decode_int(bytes, big_endian = False) * -1

    else:
        number = decode_int(bytes, big_endian = False)

    return number
""", """    magnitude = decode_int(bytes, big_endian = False)
    sign = 1 << (8 * len(bytes) - 1) if len(bytes) else 0
    return sign - magnitude if magnitude & sign else magnitude
"""),
 ("""    if integer == 0:
        bytes = bytearray()

    elif integer > 0:
        bytes = bytearray(encode_int(integer, big_endian = False))
        if bytes[-1] & 0x80:
            bytes += encode_int(0x00)

    else:
        bytes = bytearray(encode_int(-integer, big_endian = False))
        if bytes[-1] & 0x80:
            bytes += encode_int(0x80)
        else:
            bytes = bytes[:-1] + encode_int(bytes[-1] | 0x80)

    return bytes
""", """    if not integer:
        return bytearray()

    data = bytearray(encode_int(abs(integer), big_endian = False))
    sign = 0x80 if integer < 0 else 0x00

    if data[-1] >= 0x80:
        data.append(sign)
    else:
        data[-1] |= sign

    return data
"""))
E('tools.py',
 ("""        ret = bytes(self[:amount])
        del self[:amount]
        return ret
""", """        taken, self[:amount] = bytes(self[:amount]), b''
        return taken
"""),
 ("""        elif order == 253:
            length, minimum = 2, 253

        elif order == 254:
            length, minimum = 4, 0x10000

        elif order == 255:
            length, minimum = 8, 0x100000000

        integer""", """        length, minimum = Buffer.WIDTHS[order]

        integer"""),
 ("    def read(self, amount):", "    WIDTHS = {253: (2, 0xfd), 254: (4, 1 << 16), 255: (8, 1 << 32)}\n\n    def read(self, amount):"))
E('errors.py', ("""        self.message = self.__doc__.format(**self.__dict__)
        super(BitforgeError, self).__init__(self.message)
""", """        super(BitforgeError, self).__init__(self._describe())

    def _describe(self):
        self.message = self.__doc__.format(**vars(self))
        return self.message
"""))
E('utils/encoding.py',
 ("""    l = bytearray()
    while v > 0:
        try:
            v, mod = divmod(v, base)
            l.append(charset(mod))
        except Exception:
            raise EncodingError("can't convert to character corresponding to %d" % mod)
    l.extend([charset(0)] * prefix)
    l.reverse()
    return bytes(l)
""", """    digits = []
    while v:
        digits.append(charset(v % base))
        v //= base
    return bytes([charset(0)] * prefix + digits[::-1])
"""),
 ("""    data = a2b_base58(s)
    data, the_hash = data[:-4], data[-4:]
    if double_sha256(data)[:4] == the_hash:
        return data
    raise EncodingError(""", """    blob = a2b_base58(s)
    data, checksum = blob[:-4], blob[-4:]
    expected = double_sha256(data)[:4]
    if checksum == expected:
        return data
    raise EncodingError("""),
 ("""    if sec0 == b'\\4':
        y = from_bytes_32(sec[33:65])
        from .ecdsa import is_public_pair_valid
        from .secp256k1 import generator_secp256k1
        public_pair = (x, y)
        # verify this is on the curve
        if not is_public_pair_valid(generator_secp256k1, public_pair):
            raise EncodingError("invalid (x, y) pair")
        return public_pair
    if sec0 in (b'\\2', b'\\3'):
        from .ecdsa import is_public_pair_valid, public_pair_for_x
        from .secp256k1 import generator_secp256k1
        public_pair = public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\\2'))
        # there may be no point with this x
        if not is_public_pair_valid(generator_secp256k1, public_pair):
            raise EncodingError("invalid x coordinate")
        return public_pair
    raise EncodingError("bad sec encoding for public key")
""", """    from .ecdsa import is_public_pair_valid, public_pair_for_x
    from .secp256k1 import generator_secp256k1
    if sec0 == b'\\4':
        public_pair = (x, from_bytes_32(sec[33:]))
    elif is_sec_compressed(sec):
        public_pair = public_pair_for_x(generator_secp256k1, x, sec0 == b'\\2')
    else:
        raise EncodingError("bad sec encoding for public key")
    if is_public_pair_valid(generator_secp256k1, public_pair):
        return public_pair
    raise EncodingError("invalid point")
"""))
E('utils/ellipticcurve.py',
 ("""    e3 = 3 * e
    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
    i = leftmost_bit( e3 ) // 2
    result = self
    # print "Multiplying %s by %d (e3 = %d):" % ( self, other, e3 )
    while i > 1:
      result = result.double()
      if ( e3 & i ) != 0 and ( e & i ) == 0: result = result + self
      if ( e3 & i ) == 0 and ( e & i ) != 0: result = result + negative_self
      # print ". . . i = %d, result = %s" % ( i, result )
      i = i // 2

    return result
""", """    result, power = INFINITY, self
    while e:
      if e & 1: result = result + power
      e >>= 1
      if e: power = power.double()

    return result
"""),
 ("""    if self.__curve == other.__curve \\
       and self.__x == other.__x \\
       and self.__y == other.__y:
      return 1
    else:
      return 0
""", """    return int( ( self.__curve, self.__x, self.__y ) == ( other.__curve, other.__x, other.__y ) )
"""))
E('utils/numbertheory.py', ("""  c, d = a, m
  uc, vc, ud, vd = 1, 0, 0, 1
  while c != 0:
    q, c, d = divmod( d, c ) + ( c, )
    uc, vc, ud, vd = ud - q*uc, vd - q*vc, uc, vc
""", """  c, d = a, m
  uc, ud = 1, 0
  while c:
    q = d // c
    c, d = d - q * c, c
    uc, ud = ud - q * uc, uc
"""))
E('privkey.py', ("""    def to_public_key(self):
        return PublicKey.from_private_key(self)
""", """    def to_public_key(self):
        return derive_public_key(self.secret, self.network, bool(self.compressed), self)
"""), ("""BasePrivateKey = ""","""_pairs = {}
_pairs_lock = threading.Lock()

def derive_public_key(secret, network, compressed, privkey):
    # remembered per secret, network and compression
    key = (secret, network.name, compressed)
    with _pairs_lock:
        if key in _pairs: return _pairs[key]
    pubkey = PublicKey.from_private_key(privkey)
    with _pairs_lock:
        if len(_pairs) > 100: _pairs.clear()
        _pairs[key] = pubkey
    return pubkey


BasePrivateKey = """), ("import random\n", "import random\nimport threading\n"),
 ("""        if len(bytes) == 33:
            compressed = False

        elif len(bytes) == 34:
            if bytes[-1] != 0x01:
                raise PrivateKey.InvalidCompressionByte(string)

            bytes = bytes[:-1]
            compressed = True

        else:
            raise PrivateKey.InvalidWifLength(bytes)

        network = find_network(bytes[0], 'wif_prefix')
        secret  = decode_int(bytes[1:])
""", """        compressed = len(bytes) == 34
        if not compressed and len(bytes) != 33:
            raise PrivateKey.InvalidWifLength(bytes)

        if compressed and bytes.pop() != 0x01:
            raise PrivateKey.InvalidCompressionByte(string)

        network = find_network(bytes.pop(0), 'wif_prefix')
        secret  = decode_int(bytes)
"""))
E('address.py', ("""        network = networks.find(version, 'pubkeyhash', raises = False)
        if network is not None:
            return (network, Address.Type.PublicKey)

        network = networks.find(version, 'scripthash', raises = False)
        if network is not None:
            return (network, Address.Type.Script)
""", """        for type in (Address.Type.Script, Address.Type.PublicKey):
            network = networks.find(version, type.value, raises = False)
            if network is not None:
                return (network, type)
"""))
E('hdprivkey.py', ("""        if index >= HARDENED_START:
            key = b'\\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
        else:
            key = self.to_public_key().to_bytes()

        signed64 = hmac.new(
            self.chain,
            key + to_bytes(index, length = 4),
            hashlib.sha512
        ).digest()

        seed    = (int""", """        signed64 = self._mac(index)
        seed    = (int"""), ("""    def to_hd_public_key(self):""", """    def _mac(self, index):
        mac = hmac.new(self.chain, digestmod = hashlib.sha512)
        if index < HARDENED_START:
            mac.update(self.to_public_key().to_bytes())
        else:
            mac.update(b'\\0')
            mac.update(self.privkey.to_bytes())
        mac.update(index.to_bytes(4, 'big'))
        return mac.digest()

    def to_hd_public_key(self):"""))
E('signature.py', ("""    # Extract the length of the R element.
    lenR = sig[3]
""", """    # Extract the length of the R element.
    def bad_integer(start, length):
        if sig[start - 2] != 0x02 or length == 0 or sig[start] >= 0x80: return True
        return length > 1 and sig[start] == 0 and sig[start + 1] < 0x80

    lenR = sig[3]
"""), ("""    # Check whether the R element is an integer.
""", """    return not (bad_integer(4, lenR) or bad_integer(6 + lenR, lenS))
    # Check whether the R element is an integer.
"""))
E('unit.py', ("""        if satoshis is not None:
            self._set_values(satoshis)
        elif bits is not None:
            self._set_values(bits * Unit.bits)
        elif mbtc is not None:
            self._set_values(mbtc * Unit.mbtc)
        elif btc is not None:
            self._set_values(btc * Unit.btc)
        else:
            raise ValueError('Invalid arguments')
""", """        given = [(satoshis, 1), (bits, Unit.bits), (mbtc, Unit.mbtc), (btc, Unit.btc)]
        given = [value * factor for value, factor in given if value is not None]
        if not given:
            raise ValueError('Invalid arguments')
        self._set_values(given[0])
"""))
E('uri.py', ("""        for k, v in args.items():
            if k in MEMBERS:
                setattr(self, k, v)
            else:
                self.extras[k] = v
""", """        self.extras.update((k, args[k]) for k in args if k not in MEMBERS)
        for k in MEMBERS:
            if k in args: setattr(self, k, args[k])
"""))
E('script/script.py', ("""        while buffer:
            opcode = Opcode(ord(buffer.read(1)))
            data   = None

            if opcode.is_const_push():
                data = buffer.read(opcode.number)

            elif opcode.is_var_push():
                length_bytes = buffer.read(Opcode.data_length_nbytes(opcode))

                length = decode_int(length_bytes, big_endian = False)
                data   = buffer.read(length)

            instructions.append(Instruction(opcode, data))
""", """        while len(buffer):
            instructions.append(Script._read_instruction(buffer))
"""), ("""    @staticmethod
    def from_string(string):""", """    @staticmethod
    def _read_instruction(buffer):
        opcode = Opcode(decode_int(buffer.read(1)))

        if not opcode.is_push():
            return Instruction(opcode)

        length = opcode.number
        if opcode.is_var_push():
            length = decode_int(buffer.read(Opcode.data_length_nbytes(opcode)), big_endian = False)

        return Instruction(opcode, buffer.read(length))

    @staticmethod
    def from_string(string):"""), ("""        for subcls in SCRIPT_SUBCLASSES:
            if subcls.is_valid(script):
                return subcls

        return None
""", """        return next((c for c in SCRIPT_SUBCLASSES if c.is_valid(script)), None)
"""), ("""        data = bytearray()
        for i in self.instructions: data += i.to_bytes()
        return bytes(data)
""", """        return b''.join(i.to_bytes() for i in self.instructions)
"""), ("SCRIPT_SUBCLASSES = [\n    PayToPubkeyIn,\n    PayToPubkeyOut,\n", "SCRIPT_SUBCLASSES = [\n    PayToPubkeyOut,\n    PayToPubkeyIn,\n"))
E('script/instruction.py', ("""        if len(self.data) == 0:
            # Could have used OP_0.
            return self.opcode == OP_0
        elif""", """        if not self.data:
            return False
        elif"""))
E('script/interpreter.py', ("""        if (instruction.opcode == OP_CAT or
            instruction.opcode == OP_SUBSTR or
            instruction.opcode == OP_LEFT or
            instruction.opcode == OP_RIGHT or
            instruction.opcode == OP_INVERT or
            instruction.opcode == OP_AND or
            instruction.opcode == OP_OR or
            instruction.opcode == OP_XOR or
            instruction.opcode == OP_2MUL or
            instruction.opcode == OP_2DIV or
            instruction.opcode == OP_MUL or
            instruction.opcode == OP_DIV or
            instruction.opcode == OP_MOD or
            instruction.opcode == OP_LSHIFT or
            instruction.opcode == OP_RSHIFT):

            self.errstr""", """        if instruction.opcode in DISABLED:
            self.errstr"""), ("class Interpreter(object):\n", """DISABLED = frozenset([
    OP_CAT, OP_SUBSTR, OP_LEFT, OP_RIGHT, OP_INVERT, OP_AND, OP_OR, OP_XOR,
    OP_2MUL, OP_2DIV, OP_MUL, OP_DIV, OP_MOD, OP_LSHIFT, OP_RSHIFT
])


class Interpreter(object):
"""), ("""                self.altstack += self.stack[-1:]
                self.stack = self.stack[:-1]
""", """                self.altstack.append(self.stack.pop())
"""), ("""                self.stack += self.altstack[-1:]
                self.altstack = self.altstack[:-1]
""", """                self.stack.append(self.altstack.pop())
"""), ("        f_exec = False not in self.vf_exec\n", "        f_exec = all(self.vf_exec)\n"),
 ("""            self.initialize()
            self.script = redeem_script
            self.stack = stack_copy
            self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])
            self.nin = nin or 0
            self.flags = flags or 0
""", """            self._reset(redeem_script, stack_copy, tx, nin, flags)
"""), ("""        stack = self.stack
        self.initialize()
        self.script = script_pubkey
        self.stack = stack
        self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])
        self.nin = nin or 0
        self.flags = flags or 0
""", """        self._reset(script_pubkey, self.stack, tx, nin, flags)
"""), ("""        self.initialize()
        self.script = script_sig
        self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])
        self.nin = nin
        self.flags = flags
""", """        self._reset(script_sig, [], tx, nin, flags)
"""), ("    def evaluate(self):", """    def _reset(self, script, stack, tx, nin, flags):
        self.initialize()
        self.script = script
        self.stack = stack
        self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])
        self.nin = nin or 0
        self.flags = flags or 0

    def evaluate(self):"""))
E('transaction/transaction.py', ("""        buffer = Buffer()

        # Version""", """        def counted(items):
            return encode_varint(len(items)) + b''.join(item.to_bytes() for item in items)

        def uint32(number):
            return encode_int(number, length = 4, big_endian = False)

        return uint32(self.version) + counted(self.inputs) + counted(self.outputs) + uint32(self.lock_time)

        # Version"""),
 ("""        if base_sigtype in (SIGHASH_NONE, SIGHASH_SINGLE):
            # Other Inputs can change their sequence number
            inputs = tuple(
                input if i == txi_index else Input(input.tx_id, input.txo_index, input.script, 0)
                for i, input in enumerate(inputs)
            )

""", ""),
 ("""        if sigtype & SIGHASH_ANYONECANPAY:
            inputs = inputs[txi_index:txi_index + 1]
""", """        if sigtype & SIGHASH_ANYONECANPAY:
            inputs = inputs[txi_index:txi_index + 1]
        elif base_sigtype in (SIGHASH_NONE, SIGHASH_SINGLE):
            inputs = list(inputs)
            for i in range(len(inputs)):
                if i != txi_index: inputs[i] = inputs[i]._replace(seq_number = 0)
"""))
E('transaction/input.py', ("""        expected_pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]

        for privkey in privkeys:
            pubkey = privkey.to_public_key().to_bytes()

            if pubkey not in expected_pubkeys:
                return False

            expected_pubkeys.remove(pubkey) # each one can sign once

        return True
""", """        available = [ instruction.data for instruction in self.script.instructions[1:-2] ]
        wanted = [ privkey.to_public_key().to_bytes() for privkey in privkeys ]

        return all(wanted.count(pubkey) <= available.count(pubkey) for pubkey in wanted)
"""))
# statements that do nothing, comments
for f in ('script/opcode.py', 'networks.py', 'pubkey.py', 'hdpubkey.py', 'transaction/output.py', 'utils/ecdsa.py', 'utils/intbytes.py'):
    p = os.path.join(D, 'bitforge', f); s = open(p).read(); out = []
    lines = s.split('\n')
    for i, l in enumerate(lines):
        out.append(l)
        if l.strip().startswith('def ') and l.rstrip().endswith(':') and not lines[i+1].strip().startswith('"""') and lines[i+1].strip():
            ind = len(lines[i+1]) - len(lines[i+1].lstrip()); out.append(' ' * ind + '_unused = 0')
    open(p, 'w').write('\n'.join(out) + '\n# end\n')
E('utils/ecdsa.py', ("        t = bytearray()\n", "        t = bytearray(b'')\n"))
print('done')
