From 89853c9b26e41bb5d6b9eb8583a353fcda24210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 01/62] fix: str() of any BitforgeError raised AttributeError
 on Python 3

Exception.message does not exist there, so keep the formatted message.
---
 bitforge/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..a8acc4c 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -4,8 +4,8 @@ class BitforgeError(Exception):
     def __init__(self, *args, **kwargs):
         self.cause = kwargs.pop('cause', None)
         self.prepare(*args, **kwargs)
-        message = self.__doc__.format(**self.__dict__)
-        super(BitforgeError, self).__init__(message)
+        self.message = self.__doc__.format(**self.__dict__)
+        super(BitforgeError, self).__init__(self.message)
 
     def prepare(self):
         pass
-- 
2.43.0


From 90a1c9daf6b822f92ab4e4f80f973eece6a948f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 02/62] fix: encode_int(0), encode_varint(>= 253) and zero
 bytes were text on Python 3

Use the byte-producing chr() of compat, as the other modules do.
---
 bitforge/encoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..429b866 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError
 
 
-- 
2.43.0


From 3f60b4503bb9e20c7a71a0403ae652813d277bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 03/62] fix: Input, Output and Transaction.to_bytes() returned
 the repr of the buffer

str(bytearray) is not the binary string on Python 3.
---
 bitforge/transaction/input.py       | 2 +-
 bitforge/transaction/output.py      | 2 +-
 bitforge/transaction/transaction.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..d0f91e9 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -72,7 +72,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From d0ace59cec5910a2308b76791a972ce25c468cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 04/62] fix: the length of PUSHDATA2/4 was padded on the wrong
 (low) side

The length is little-endian, so a push of 3 bytes must be 03 00 and not 00 03.
---
 bitforge/script/instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..ea4a602 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
+                length = length_nbytes,
                 big_endian = False
-            ).rjust(length_nbytes, '\0')
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From ad115468eda46aecb212144c5084703b3e0f7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 05/62] fix: parsed objects held mutable, unhashable bytearrays

Buffer.read() now returns immutable bytes, so Instructions and Scripts read
from bytes can be hashed and can't be changed after creation.
---
 bitforge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index 1f91d7e..c99038e 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -20,7 +20,7 @@ class Buffer(bytearray):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
 
-        ret = self[:amount]
+        ret = bytes(self[:amount])
         del self[:amount]
         return ret
 
-- 
2.43.0


From 562fdbdff3233b221b76445a3ce77f3ce174fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 06/62] fix: a parsed Input held its tx_id as bytes, so it was
 not equal to the original

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index d0f91e9..55d820b 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -107,7 +107,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode('utf-8') # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
-- 
2.43.0


From b91e11c064e42944ba7c2406f410d40c09db4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 07/62] fix: Transaction.get_id() was not the Bitcoin ID

IDs are written in reversed byte order, which is also the form that
Input(tx_id) takes.
---
 bitforge/transaction/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..15fd45e 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,7 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        return encode_hex(self.get_id_bytes()[::-1]).decode('utf-8')
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From 748fc9fdbfc0105bd0ccb76ad18f3c75eb411a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 08/62] fix: Input.create() raised NameError for scripts of no
 known class

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 55d820b..544c42c 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -47,11 +47,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From d20891b6090009a9094595aba001b0ace20758fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 09/62] fix: MultisigOutput locked funds with the bare redeem
 script

It is a Pay-to-Script-Hash output, and MultisigInput can only redeem those.
---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..ea5b2d2 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,7 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        return super(MultisigOutput, cls).create(amount, redeem_script)
 
 
 class DataOutput(Output):
-- 
2.43.0


From 114d186d12b386cbd63a5db48aab6a572f8571ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 10/62] fix: PrivateKey.verify() rejected the signatures made
 by sign()

sign() takes its payload as the digest, verify() hashed it once more.
---
 bitforge/privkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..8319c05 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From b8601d5fa1c8c1e65f5145796a793f2817bd04b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 11/62] fix: public keys with coordinates beyond the field were
 accepted

X9.62 5.2.2 wants both in [0, p-1]. Without it the same point has several
encodings, that the network rejects.
---
 bitforge/utils/ecdsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..ca48359 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,7 +122,9 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
-    return generator.curve().contains_point(public_pair[0], public_pair[1])
+    x, y = public_pair
+    p = generator.curve().p()
+    return 0 <= x < p and 0 <= y < p and generator.curve().contains_point(x, y)
 
 def verify(generator, public_pair, val, signature):
     """
-- 
2.43.0


From a7916c8945f2ee86035eadc7fd2e0e4b4715c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 12/62] fix: PublicKey.from_bytes() accepted truncated keys and
 trailing garbage

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..631f085 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -231,6 +231,8 @@ def public_pair_to_sec(public_pair, compressed=True):
 
 def sec_to_public_pair(sec):
     """Convert a public key in sec binary format to a public pair."""
+    if len(sec) != (33 if is_sec_compressed(sec) else 65):
+        raise EncodingError("bad length of sec encoding for public key")
     x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
     if sec0 == b'\4':
-- 
2.43.0


From 4b090d3de87c488c0e1e60ecfbe9460d5df1ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 13/62] fix: non-ASCII text given to from_hex() escaped as a
 bare ValueError

binascii.Error is a subclass of ValueError, but not the only one raised.
---
 bitforge/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 429b866..74cbfea 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -112,8 +112,8 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws different exceptions (length, alphabet, and non-ASCII)
         raise InvalidHex(string)
 
 
-- 
2.43.0


From 897da48e89418adf1967e1dc07754415b3fe1499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 14/62] fix: keys and addresses could not be hashed

They hold a Network, which held a list of seeds.
---
 bitforge/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/networks.py b/bitforge/networks.py
index 80c5fa4..ee1fa01 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -35,12 +35,12 @@ testnet = Network(
     magic      = 0x0b110907,
 
     port  = 18333,
-    seeds = [
+    seeds = (
         'testnet-seed.bitcoin.petertodd.org',
         'testnet-seed.bluematt.me',
         'testnet-seed.alexykot.me',
         'testnet-seed.bitcoin.schildbach.de'
-    ]
+    )
 )
 
 default = livenet = Network(
@@ -54,14 +54,14 @@ default = livenet = Network(
   magic      = 0xf9beb4d9,
 
   port  = 8333,
-  seeds = [
+  seeds = (
     'seed.bitcoin.sipa.be',
     'dnsseed.bluematt.me',
     'dnsseed.bitcoin.dashjr.org',
     'seed.bitcoinstats.com',
     'seed.bitnodes.io',
     'bitseed.xf2.org'
-  ]
+  )
 )
 
 _networks = [livenet, testnet]
-- 
2.43.0


From 695bb1ab37772ba5b767e1875493d7cbc4428eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 15/62] fix: scripts of 4 or more instructions starting with a
 push could not be parsed

RedeemMultisig.is_valid() raised AttributeError when it found a push where
a number should be.
---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..76829e9 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -278,8 +278,8 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
+            structure[0] != 'PUSH' and structure[0].is_number() and
+            structure[-2] != 'PUSH' and structure[-2].is_number() and
             structure[-1] == OP_CHECKMULTISIG and
             all(op == 'PUSH' for op in structure[1:-2])
         )
-- 
2.43.0


From 111b64118c177cf9a0438f13a74237a833308f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 16/62] fix: scripts with unassigned opcodes could not be
 printed

Opcode.name raised KeyError for them.
---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..0185af8 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, "OP_UNKNOWN_%d" % self.number)
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From 71ce7b1ebb8843bb5362f7da4cacab1e621074d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 17/62] fix: Instruction.is_minimal_push() raised, or said yes
 to any push of an empty string

---
 bitforge/script/instruction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index ea4a602..56b937e 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,21 +60,21 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
         if len(self.data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(self.data) == 1 and 1 <= decode_int(self.data) <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + decode_int(self.data) - 1
+        elif len(self.data) == 1 and decode_int(self.data) == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
         elif len(self.data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
+            return self.opcode.number == len(self.data)
         elif len(self.data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-- 
2.43.0


From afd99e38a41538f37e35dd34720fbc144284afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 18/62] fix: 4-byte script numbers (5-byte ones for lock times)
 were rejected

The documented limit is on numbers bigger than 4 bytes.
---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 74cbfea..d6666d1 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -141,7 +141,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From 3f598021483bd4661710123b754896836e0a5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 19/62] fix: encoding.hash160(), and with it OP_HASH160, raised
 AttributeError

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index d6666d1..954974e 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -130,7 +130,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From c2f20104849083f43bc695f56379d804a0324f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 20/62] fix: OP_DROP dropped two elements

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..a4ebd66 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -393,7 +393,6 @@ class Interpreter(object):
                     return False
 
                 self.stack.pop()
-                self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
                 # ( x -- x x )
-- 
2.43.0


From c81805e7fd9ef43c6ea1659ec36482e6fb8fa0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 21/62] fix: OP_ABS always gave 1

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index a4ebd66..e9256eb 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -513,7 +513,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From 6777b70984284b450b9ca43813683af8cfef64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 22/62] fix: OP_WITHIN ignored SCRIPT_VERIFY_MINIMALDATA

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e9256eb..a4684c9 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,7 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = (decode_script_number(n, f_required_minimal) for n in self.stack[-3:])
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From d32527b4d6ca2a28773b1a01e8e05fb9de9a627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:05 +0000
Subject: [PATCH 23/62] fix: the stack size limit was only enforced at the end
 of a script

bitcoind checks it after every operation.
---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index a4684c9..381229f 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -132,9 +132,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From d148d57ee48a4abc8a605a7cad5b45e6a0a694db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 24/62] fix: OP_CHECKLOCKTIMEVERIFY failed every script

It is a NOP unless its flag is set, and the comparison with the lock time
of the transaction (BIP65) was missing.
---
 bitforge/script/interpreter.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 381229f..31bbf99 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -209,11 +209,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                    # Not enabled, treat as a NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
@@ -755,7 +758,16 @@ class Interpreter(object):
         return True
 
     def check_lock_time(self, nlock_time):
-        pass
+        # Heights and timestamps can't be compared with each other:
+        threshold = Interpreter.LOCKTIME_THRESHOLD
+        if (self.tx.lock_time < threshold) != (nlock_time < threshold):
+            return False
+
+        if nlock_time > self.tx.lock_time:
+            return False
+
+        # The lock time of a Transaction is ignored if the Input is final:
+        return self.tx.inputs[self.nin].seq_number != 0xFFFFFFFF
 
     def check_signature_encoding(self, bytes):
         pass
-- 
2.43.0


From e63676c695b25f44b20e054cd1cbd1acb18993fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 25/62] fix: verify() with SCRIPT_VERIFY_P2SH raised
 AttributeError

It asked the wrong script if it is a Pay-to-Script-Hash output, by a method
that didn't exist, and then judged the stack from before the redeem script.
---
 bitforge/script/interpreter.py | 13 +++++++++----
 bitforge/script/script.py      | 13 +++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 31bbf99..df31443 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -80,7 +80,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_pubkey.is_script_hash_out():
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -93,9 +93,14 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
             stack_copy = stack_copy[:-1]
 
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             self.initialize()
             self.script = redeem_script
             self.stack = stack_copy
@@ -107,11 +112,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 76829e9..cb3687b 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -153,6 +153,19 @@ class Script(BaseScript):
         """
         return all(i.opcode <= OP_16 for i in self.instructions)
 
+    def is_script_hash_out(self):
+        """
+        :returns: if this is exactly the Pay-to-Script-Hash output script defined in BIP16
+        """
+        data = bytearray(self.to_bytes())
+
+        return (
+            len(data) == 23 and
+            data[0] == OP_HASH160.number and
+            data[1] == 20 and
+            data[22] == OP_EQUAL.number
+        )
+
     def __repr__(self):
         return str(self.instructions)
 
-- 
2.43.0


From d9a4bee626febd42fad4f5bc79e7b01d9d36edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 26/62] fix: HDPrivateKey and HDPublicKey.to_string() raised
 TypeError on Python 3

---
 bitforge/hdprivkey.py | 4 ++--
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..6c1f78c 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..489fea6 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
-- 
2.43.0


From 32c6e85009f09eb2224132b71b7c284df58cf72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 27/62] fix: HD derivation raised, and used the index of the
 parent instead of the child's

---
 bitforge/hdprivkey.py | 6 +++---
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6c1f78c..91cf844 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -84,17 +84,17 @@ class HDPrivateKey(BaseHDPrivateKey):
             index += HARDENED_START
 
         if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 489fea6..f729322 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -75,7 +75,7 @@ class HDPublicKey(BaseHDPublicKey):
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From 446573b87008e1c2d4df4e6c13ec089915bb1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 28/62] fix: indexes of 2^31 and above were derived as
 non-hardened

BIP32 defines hardened children by their index. A normal derivation with
such an index exposes the parent to whoever holds one child.
---
 bitforge/hdprivkey.py | 2 +-
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 91cf844..e206065 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -83,7 +83,7 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index f729322..944f17e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -68,7 +68,7 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
             key = self.to_public_key().to_bytes()
-- 
2.43.0


From 6f11ced7279b8d0fd75fedc251607477a4b1797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 29/62] fix: HD from_string() accepted payloads of any length

---
 bitforge/hdprivkey.py | 5 ++++-
 bitforge/hdpubkey.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index e206065..b149011 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -47,7 +47,10 @@ class HDPrivateKey(BaseHDPrivateKey):
     # TODO: massage this
     @staticmethod
     def from_string(b58_str):
-        data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
+        data = utils.encoding.a2b_hashed_base58(b58_str) # validates the checksum
+
+        if len(data) != HDPrivateKey.DataLength or data[HDPrivateKey.ChainCodeEnd : HDPrivateKey.PrivateKeyStart] != b'\0':
+            raise ValueError("HDPrivateKey string is not a serialized private key")
 
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 944f17e..62ccfa5 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -27,7 +27,10 @@ class HDPublicKey(BaseHDPublicKey):
     # TODO: massage this
     @staticmethod
     def from_string(b58_str):
-        data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
+        data = utils.encoding.a2b_hashed_base58(b58_str) # validates the checksum
+
+        if len(data) != HDPublicKey.DataSize:
+            raise ValueError("HDPublicKey string is not a serialized public key")
 
         chain   = data[HDPublicKey.ChainCodeStart : HDPublicKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])
-- 
2.43.0


From a6698b76896a31f0c1edf63aef300370cb4df996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 30/62] fix: modular_sqrt() raised TypeError for primes p = 1
 mod 4 on Python 3

---
 bitforge/utils/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/numbertheory.py b/bitforge/utils/numbertheory.py
index f2df00f..232a33d 100755
--- a/bitforge/utils/numbertheory.py
+++ b/bitforge/utils/numbertheory.py
@@ -56,7 +56,7 @@ def modular_sqrt(a, p):
     s = p - 1
     e = 0
     while s % 2 == 0:
-        s /= 2
+        s //= 2
         e += 1
 
     # Find some 'n' with a legendre symbol n|p = -1.
-- 
2.43.0


From c0917b4184d3b9aa17558dc1ab31328385bf9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 31/62] fix: utils.ecdsa.sign() did not reduce r modulo the
 order

Such signatures are rejected by verify().
---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index ca48359..4f4cbc6 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -102,7 +102,7 @@ def sign(generator, secret_exponent, val):
     n = G.order()
     k = deterministic_generate_k(n, secret_exponent, val)
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( val + ( secret_exponent * r ) % n ) ) % n
-- 
2.43.0


From aa2e2c1790c4173aab0f03c8e5ce274673a5f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 32/62] fix: utils.ecdsa.verify() raised TypeError when the sum
 is the point at infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 4f4cbc6..a8dea2e 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -143,6 +143,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From 6f0d6a5ae9a06e44333d9e385d40da32eebb2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 33/62] fix: deterministic_generate_k() didn't reduce a value
 equal to the order

RFC6979 2.3.4 wants it modulo the order.
---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index a8dea2e..9a15628 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0


From d2759361633dc7f076e484e8fc3f0411f34ded21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 34/62] fix: intbytes.from_bytes() ignored its byteorder

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From fabe149194474e1fbbc0b1e9fdf4126119003349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 35/62] fix: validate_signature() raised TypeError on Python 3

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From 56264a6dc750bdf38cdb0e388f9e5afa3c160158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 36/62] fix: amounts lost a satoshi

0.29 * 1e8 is 28999999.999999996, so the nearest integer is wanted.
---
 bitforge/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..6b2df7d 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -25,7 +25,7 @@ class Unit(object):
             raise ValueError('Invalid arguments')
 
     def _set_values(self, satoshis):
-        self.satoshis = int(satoshis)
+        self.satoshis = int(round(satoshis))
         self.bits = self.satoshis / Unit.bits
         self.mbtc = self.satoshis / Unit.mbtc
         self.btc = self.satoshis / Unit.btc
-- 
2.43.0


From 70d3fd22468d83f1d23823c5fdd3af9c816cfbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 37/62] fix: URI.to_uri() wrote small amounts with an exponent

BIP21 doesn't have them, other wallets reject or misread amount=1e-05.
---
 bitforge/uri.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..91aea61 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -54,7 +54,9 @@ class URI(object):
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-            query['amount'] = self.amount.btc
+            # BIP21 amounts are plain decimals, without exponents:
+            amount = '%d.%08d' % divmod(self.amount.satoshis, 10 ** 8)
+            query['amount'] = amount.rstrip('0').rstrip('.')
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From 76763672aa2339ebe9554d2a7cbe2a506d3bbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 38/62] fix: URI.is_valid() raised OverflowError for infinite
 amounts

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 91aea61..b5157af 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From 0d45b84cc1015c231dd506eb72bd2c116276b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 39/62] fix: URIs of other schemes were taken as bitcoin
 payments

---
 bitforge/uri.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index b5157af..feb5680 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -24,6 +24,9 @@ class URI(object):
     @staticmethod
     def parse(uri):
         parsed = urlparse(uri)
+        if parsed.scheme != 'bitcoin':
+            raise ValueError('Not a bitcoin URI')
+
         data = dict(parse_qsl(parsed.query))
         data['address'] = parsed.path or parsed.netloc
         return data
-- 
2.43.0


From cad0f504021fee85325b809d2570d9f253c15606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 40/62] fix: Script.from_string() couldn't read the empty
 script that to_string() writes

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index cb3687b..03425f5 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -86,7 +86,7 @@ class Script(BaseScript):
     @staticmethod
     def from_string(string):
         instructions = []
-        tokens = (i for i in string.split(' '))
+        tokens = iter(string.split())
 
         def get_opcode(token):
             try:
-- 
2.43.0


From 553767042a236a896bd8561f08821a3611c29e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 41/62] fix: integers that don't fit their field were silently
 truncated

An amount of 2^64 was serialized as 0, and negative numbers as 0 too.
---
 bitforge/encoding.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 954974e..7a544fc 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -4,7 +4,7 @@ import hashlib
 
 from . import utils
 from .compat import chr
-from .errors import StringError
+from .errors import StringError, NumberError
 
 
 class EncodingError(StringError):
@@ -27,6 +27,10 @@ class InvalidMinimalScriptNumber(EncodingError):
     "The script number {string} is not minimally encoded"
 
 
+class InvalidInteger(NumberError):
+    "The integer {number} is negative, or doesn't fit in the requested length"
+
+
 def encode_base58h(bytes):
     return utils.encoding.b2a_hashed_base58(bytes)
 
@@ -40,6 +44,9 @@ def decode_base58h(string):
 
 
 def encode_int(integer, big_endian = True, length = None):
+    if integer < 0 or (length is not None and integer >> (8 * length)):
+        raise InvalidInteger(integer)
+
     if integer == 0:
         return chr(0) if length is None else chr(0) * length
 
@@ -50,7 +57,7 @@ def encode_int(integer, big_endian = True, length = None):
         integer >>= 8
 
     if length is not None:
-        zeros = bytearray(length) # TODO if number can't fit in length, raise
+        zeros = bytearray(length)
         data = (data + zeros)[:length]
 
     if big_endian:
@@ -73,7 +80,6 @@ def decode_int(bytes, big_endian = True):
 
 
 def encode_varint(integer):
-    # TODO check integer is a postive number
     if integer < 253:
         return encode_int(integer)
 
-- 
2.43.0


From 7a980e05595f217b0d2980e276b1155f6c43f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 42/62] fix: from_bytes() of transactions, inputs and outputs
 ignored trailing data

---
 bitforge/tools.py                   | 10 ++++++++++
 bitforge/transaction/input.py       |  6 +++++-
 bitforge/transaction/output.py      |  6 +++++-
 bitforge/transaction/transaction.py |  2 ++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index c99038e..80883ce 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -16,6 +16,12 @@ class Buffer(bytearray):
             self.remaining = remaining
             self.requested = requested
 
+    class TrailingData(Error):
+        "Expected the end of the data, but {remaining} more bytes follow"
+
+        def prepare(self, remaining):
+            self.remaining = remaining
+
     def read(self, amount):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
@@ -39,6 +45,10 @@ class Buffer(bytearray):
         elif order == 255:
             return decode_int(self.read(8), big_endian = False)
 
+    def finish(self):
+        if len(self) > 0:
+            raise Buffer.TrailingData(len(self))
+
     def write(self, data):
         self.extend(data)
 
diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 544c42c..27517a7 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -99,7 +99,11 @@ class Input(BaseInput):
 
     @classmethod
     def from_bytes(cls, bytes):
-        return cls.from_buffer(Buffer(bytes))
+        buffer = Buffer(bytes)
+        input  = cls.from_buffer(buffer)
+        buffer.finish()
+
+        return input
 
     @classmethod
     def from_buffer(cls, buffer):
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index ea5b2d2..a08329e 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -61,7 +61,11 @@ class Output(BaseOutput):
 
     @staticmethod
     def from_bytes(bytes):
-        return Output.from_buffer(Buffer(bytes))
+        buffer = Buffer(bytes)
+        output = Output.from_buffer(buffer)
+        buffer.finish()
+
+        return output
 
     @staticmethod
     def from_buffer(buffer):
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 15fd45e..e847a1c 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -146,6 +146,8 @@ class Transaction(BaseTransaction):
 
         lock_time = decode_int(buffer.read(4), big_endian = False)
 
+        buffer.finish()
+
         return Transaction(inputs, outputs, lock_time, version)
 
     @staticmethod
-- 
2.43.0


From a7d033632f2c2d3183c74d7a294bea80e94e9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 43/62] fix: variable-length integers were accepted in longer
 forms than needed

bitcoind rejects them. The transaction read from such data had another ID
than the data itself.
---
 bitforge/tools.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index 80883ce..33320e8 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -22,6 +22,9 @@ class Buffer(bytearray):
         def prepare(self, remaining):
             self.remaining = remaining
 
+    class NonCanonicalVarint(Error, NumberError):
+        "The integer {number} was not written in its shortest form"
+
     def read(self, amount):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
@@ -37,13 +40,20 @@ class Buffer(bytearray):
             return order # single-byte varint, value is as written
 
         elif order == 253:
-            return decode_int(self.read(2), big_endian = False)
+            length, minimum = 2, 253
 
         elif order == 254:
-            return decode_int(self.read(4), big_endian = False)
+            length, minimum = 4, 0x10000
 
         elif order == 255:
-            return decode_int(self.read(8), big_endian = False)
+            length, minimum = 8, 0x100000000
+
+        integer = decode_int(self.read(length), big_endian = False)
+
+        if integer < minimum:
+            raise Buffer.NonCanonicalVarint(integer)
+
+        return integer
 
     def finish(self):
         if len(self) > 0:
-- 
2.43.0


From e16198846ff5fb565da50ddc6a5f3d9d44ffaef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 44/62] fix: Inputs with a transaction ID of the wrong size
 were serialized to garbage

---
 bitforge/transaction/input.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 27517a7..2194a72 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -31,6 +31,8 @@ class Input(BaseInput):
             self.required = required_keys
             self.provided = provided_keys
 
+    class InvalidTransactionId(Error, StringError):
+        "The transaction ID {string} is not the hexadecimal form of 32 bytes"
 
     def __new__(cls, tx_id, txo_index, script, seq_number = FINAL_SEQ_NUMBER):
         # TODO validation
@@ -53,9 +55,13 @@ class Input(BaseInput):
     def to_bytes(self):
         buffer = Buffer()
         script = self.script.to_bytes()
+        tx_id  = decode_hex(self.tx_id)
+
+        if len(tx_id) != 32:
+            raise Input.InvalidTransactionId(self.tx_id)
 
         # Reverse transaction ID (double SHA256 hex of previous tx) (32 bytes):
-        buffer.write(reversed(decode_hex(self.tx_id)))
+        buffer.write(reversed(tx_id))
 
         # Previous tx output index, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.txo_index, length = 4, big_endian = False))
-- 
2.43.0


From c7d45c52b12999dc8a0582e3539d70816c460787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 45/62] fix: MultisigInput.can_sign() rejected testnet keys and
 accepted a repeated key

---
 bitforge/transaction/input.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 2194a72..feacfc7 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -191,10 +191,15 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        # Compare the binary keys, the script doesn't know about networks:
+        expected_pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
 
         for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
+            pubkey = privkey.to_public_key().to_bytes()
+
+            if pubkey not in expected_pubkeys:
                 return False
 
+            expected_pubkeys.remove(pubkey) # each one can sign once
+
         return True
-- 
2.43.0


From e27d83d037a4896ca17f128c14892d202c7cb8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 46/62] fix: MultisigInput signed in the order of the given
 keys

OP_CHECKMULTISIG fails unless signatures come in the order of the public keys.
---
 bitforge/transaction/input.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index feacfc7..b15afba 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -187,6 +187,16 @@ class MultisigInput(ScriptInput):
 
         return cls(tx_id, txo_index, placeholder_script, seq_number)
 
+    def sign(self, privkeys, payload, sigtype = SIGHASH_ALL):
+        # OP_CHECKMULTISIG wants the signatures in the order of the public keys:
+        pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
+
+        def position(privkey):
+            pubkey = privkey.to_public_key().to_bytes()
+            return pubkeys.index(pubkey) if pubkey in pubkeys else len(pubkeys)
+
+        return super(MultisigInput, self).sign(sorted(privkeys, key = position), payload, sigtype)
+
     def can_sign(self, privkeys):
         if len(privkeys) != self.script.get_min_signatures():
             return False
-- 
2.43.0


From 346c155d398eaa726805b5ed5a799451e95c9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 47/62] fix: Transaction.sign() with a negative index returned
 an unsigned transaction

---
 bitforge/transaction/transaction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index e847a1c..5a16b09 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -33,6 +33,9 @@ class Transaction(BaseTransaction):
     class InvalidLockTime(Error, NumberError):
         "Transaction lock_time must be between 0 and 4294967295 (2^32 - 1), not {number}"
 
+    class InvalidInputIndex(Error, NumberError):
+        "This Transaction has no Input with index {number}"
+
 
     def __new__(cls, inputs, outputs, lock_time = 0, version = 1):
         inputs = tuple(inputs)
@@ -87,6 +90,9 @@ class Transaction(BaseTransaction):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
 
     def sign(self, privkeys, txi_index, sigtype = SIGHASH_ALL):
+        if not (0 <= txi_index < len(self.inputs)):
+            raise Transaction.InvalidInputIndex(txi_index)
+
         # A Transaction Input is signed in 4 steps:
         #   1. Create a simplified Transaction without data from other Inputs
         #   2. Sign the simplified Transaction data, discard it, keep the signature
-- 
2.43.0


From c8b6e4c829189046f76bacd72142444dcda2e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 48/62] fix: AddressOutput to a Pay-to-Script address burned
 the funds

The hash of the script was used as if it were the hash of a public key.
---
 bitforge/transaction/output.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index a08329e..8bee60a 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -3,8 +3,10 @@ import collections
 
 from bitforge.encoding import *
 from bitforge.errors import *
+from bitforge.address import Address
 from bitforge.tools import Buffer
 from bitforge.script import Script, PayToPubkeyOut, PayToScriptOut, RedeemMultisig, OpReturnOut
+from bitforge.script.opcode import OP_HASH160, OP_EQUAL
 
 
 BaseOutput = collections.namedtuple('Output',
@@ -82,7 +84,12 @@ class AddressOutput(Output):
 
     @classmethod
     def create(cls, amount, address):
-        script = PayToPubkeyOut.create(address)
+        if address.type is Address.Type.Script:
+            # Pay-to-Script: nobody has a public key with this hash
+            script = Script.compile([ OP_HASH160, address.phash, OP_EQUAL ])
+        else:
+            script = PayToPubkeyOut.create(address)
+
         return cls(amount, script)
 
 
-- 
2.43.0


From 2a360697c4ef46554a7aae0c44d02238913595de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 49/62] fix: comparing an Instruction with anything else raised
 AttributeError

---
 bitforge/script/instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 56b937e..2d04e24 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -121,7 +121,7 @@ class Instruction(BaseInstruction):
             return self.opcode.name
 
     def __eq__(self, other):
-        return self.opcode == other.opcode and self.data == other.data
+        return super(Instruction, self).__eq__(other)
 
     def __hash__(self):
         return hash((self.opcode, self.data))
-- 
2.43.0


From fd4f30838b8b8efbc6decf24c3a2a3eecbf45117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:06 +0000
Subject: [PATCH 50/62] fix: URIs asking for a negative amount were valid

---
 bitforge/uri.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index feb5680..77a1fc5 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -54,6 +54,9 @@ class URI(object):
         self.address = Address.from_string(self.address)
         self.amount = Unit(satoshis = self.amount) if 'amount' in args else None
 
+        if self.amount is not None and self.amount.satoshis < 0:
+            raise ValueError('Negative amount')
+
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-- 
2.43.0


From d0968e1176ccb6ae84d2772b0c2ab76d8a62c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:26 +0000
Subject: [PATCH 51/62] fix: base58 text with lone surrogates escaped as
 UnicodeEncodeError

---
 bitforge/utils/encoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 631f085..3d7ef5d 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -138,7 +138,11 @@ def b2a_base58(s):
 
 def a2b_base58(s):
     """Convert base58 to binary using BASE58_ALPHABET."""
-    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], s.encode("utf8"))
+    try:
+        chars = s.encode("utf8")
+    except UnicodeError: # lone surrogates
+        raise EncodingError("bad character in string %r" % s)
+    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], chars)
     return from_long(v, prefix, 256, lambda x: x)
 
 
-- 
2.43.0


From 15ca8f4b5d44c1533d59842fb626676e57bd32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:22 +0000
Subject: [PATCH 52/62] fix: key recovery raised TypeError when a candidate is
 the point at infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 9a15628..ad25783 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -171,6 +171,7 @@ def possible_public_pairs_for_signature(generator, value, signature):
         R = ellipticcurve.Point(curve, x, y, order)
         # 1.6 compute Q = r^-1 (sR - eG)
         Q = inv_r * ( s * R + minus_e * G )
+        if Q == ellipticcurve.INFINITY: continue # not a public key
         public_pair = (Q.x(), Q.y())
         # check that Q is the public key
         if verify(generator, public_pair, value, signature):
-- 
2.43.0


From cdce152bee14780842fc0dbdef3c9cb61e8031e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 53/62] fix: HD derivation with a negative index and hardened =
 True was not hardened

---
 bitforge/hdprivkey.py | 3 ++-
 bitforge/hdpubkey.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index b149011..382e8bb 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -81,7 +81,8 @@ class HDPrivateKey(BaseHDPrivateKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not (0 <= index <= 0xFFFFFFFF):
+            raise ValueError("HD derivation index must be between 0 and 4294967295 (2^32 - 1)")
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 62ccfa5..935338a 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -66,7 +66,8 @@ class HDPublicKey(BaseHDPublicKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not (0 <= index <= 0xFFFFFFFF):
+            raise ValueError("HD derivation index must be between 0 and 4294967295 (2^32 - 1)")
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
-- 
2.43.0


From d3503eb2f71dc345ca76690ebc789f3dd2761049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:18 +0000
Subject: [PATCH 54/62] fix: signatures with S just above half the order were
 not canonized

---
 bitforge/privkey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 8319c05..7a8d7dc 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -17,6 +17,11 @@ def random_secret():
     return rng.randint(1, KEY_MAX - 1)
 
 
+def sigencode_canonical(r, s, order):
+    # ecdsa.util.sigencode_der_canonize() compares with half the order as a float
+    return ecdsa.util.sigencode_der(r, min(s, order - s), order)
+
+
 def find_network(value, attr = 'name'):
     try:
         return networks.find(value, attr)
@@ -129,7 +134,7 @@ class PrivateKey(BasePrivateKey):
 
     def sign(self, message):
         signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
-        return signing_key.sign_digest(message, sigencode = ecdsa.util.sigencode_der_canonize)
+        return signing_key.sign_digest(message, sigencode = sigencode_canonical)
 
     def verify(self, signature, message):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
-- 
2.43.0


From c2caf2b50ed6774d07022b09cf67e914f5f001a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 55/62] fix: MultisigInput.sign() accepted any number of keys

---
 bitforge/transaction/input.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index b15afba..398b29d 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -188,6 +188,11 @@ class MultisigInput(ScriptInput):
         return cls(tx_id, txo_index, placeholder_script, seq_number)
 
     def sign(self, privkeys, payload, sigtype = SIGHASH_ALL):
+        required = self.script.get_min_signatures()
+
+        if len(privkeys) != required:
+            raise MultisigInput.InvalidSignatureCount(required, len(privkeys))
+
         # OP_CHECKMULTISIG wants the signatures in the order of the public keys:
         pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
 
-- 
2.43.0


From 6d50b03f8c1d30220c897c8825890cb223b6d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:00 +0000
Subject: [PATCH 56/62] fix: signatures of any type but SIGHASH_ALL were
 invalid

---
 bitforge/transaction/transaction.py | 37 +++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 5a16b09..e90d5ef 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -4,7 +4,8 @@ import collections
 from bitforge.encoding import *
 from bitforge.errors import *
 from bitforge.tools import Buffer, enforce_all, instance_of
-from bitforge.signature import SIGHASH_ALL
+from bitforge.script import Script
+from bitforge.signature import SIGHASH_ALL, SIGHASH_NONE, SIGHASH_SINGLE, SIGHASH_ANYONECANPAY
 from bitforge.transaction import Input, Output
 
 
@@ -89,6 +90,36 @@ class Transaction(BaseTransaction):
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
 
+    def get_signature_payload(self, txi_index, sigtype):
+        # The signature type tells which parts of the Transaction are signed:
+        inputs, outputs = self.inputs, self.outputs
+        base_sigtype = sigtype & 0x1f
+
+        if base_sigtype in (SIGHASH_NONE, SIGHASH_SINGLE):
+            # Other Inputs can change their sequence number
+            inputs = tuple(
+                input if i == txi_index else Input(input.tx_id, input.txo_index, input.script, 0)
+                for i, input in enumerate(inputs)
+            )
+
+        if base_sigtype == SIGHASH_NONE:
+            outputs = ()
+
+        elif base_sigtype == SIGHASH_SINGLE:
+            if txi_index >= len(outputs):
+                return encode_int(1, length = 32, big_endian = False) # as bitcoind does
+
+            # Only the Output with our index is signed
+            outputs = (Output(0xFFFFFFFFFFFFFFFF, Script()),) * txi_index + outputs[txi_index:txi_index + 1]
+
+        if sigtype & SIGHASH_ANYONECANPAY:
+            inputs = inputs[txi_index:txi_index + 1]
+
+        # Not a valid Transaction if there are no Outputs, so skip our checks:
+        signed = BaseTransaction.__new__(Transaction, inputs, outputs, self.lock_time, self.version)
+
+        return sha256(sha256(signed.to_bytes() + encode_int(sigtype, length = 4, big_endian = False)))
+
     def sign(self, privkeys, txi_index, sigtype = SIGHASH_ALL):
         if not (0 <= txi_index < len(self.inputs)):
             raise Transaction.InvalidInputIndex(txi_index)
@@ -117,9 +148,7 @@ class Transaction(BaseTransaction):
         # of the simplified transaction, with an extra 4 bytes for the signature
         # type, all of that double-sha256'd:
 
-        payload = simplified_transaction.to_bytes()
-        payload += encode_int(sigtype, length = 4, big_endian = False)
-        payload = sha256(sha256(payload))
+        payload = simplified_transaction.get_signature_payload(txi_index, sigtype)
 
         # 3. Create the signed Input, making it sign itself using the provided
         # PrivateKeys. Each Input subclass knows how to handle this process. The
-- 
2.43.0


From c038d5a6c57b8227b519985ebf236c68b9f0fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:11 +0000
Subject: [PATCH 57/62] fix: push sizes that int() can't read escaped as a bare
 ValueError

---
 bitforge/script/script.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 03425f5..858e6bb 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -88,14 +88,21 @@ class Script(BaseScript):
         instructions = []
         tokens = iter(string.split())
 
+        def get_size(token, ErrorClass):
+            if not token.isdigit():
+                raise ErrorClass(token)
+
+            try:
+                return int(token)
+            except ValueError:
+                # Not all digits are decimal, nor int() reads any number of them
+                raise ErrorClass(token)
+
         def get_opcode(token):
             try:
                 return Opcode.from_name(token)
             except Opcode.UnknownOpcodeName:
-                if token.isdigit():
-                    return Opcode.const_push_for(int(token))
-                else:
-                    raise Script.UnknownOpcodeName(token)
+                return Opcode.const_push_for(get_size(token, Script.UnknownOpcodeName))
 
         for token in tokens:
             try:
@@ -114,15 +121,14 @@ class Script(BaseScript):
                     size_string = next(tokens)
                     hex_bytes = next(tokens)
 
-                    if not size_string.isdigit():
-                        raise Script.InvalidPushSize(size_string)
+                    size = get_size(size_string, Script.InvalidPushSize)
 
                     if not hex_bytes.startswith('0x'):
                         raise Script.InvalidPushData(hex_bytes)
 
                     bytes = decode_hex(hex_bytes[2:])
 
-                    if int(size_string) != len(bytes):
+                    if size != len(bytes):
                         raise Script.InvalidPushDataLength(len(bytes))
 
                     instructions.append(Instruction(opcode, data = bytes))
-- 
2.43.0


From d97e88be24191443ca5ec2830996a182d3a070a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:40 +0000
Subject: [PATCH 58/62] fix: URIs with an infinite amount escaped with an
 OverflowError

---
 bitforge/uri.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 77a1fc5..b6363e3 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -35,7 +35,10 @@ class URI(object):
         if isinstance(args, string_types):
             args = URI.parse(args)
             if 'amount' in args:
-                args['amount'] = Unit(btc = float(args['amount'])).satoshis
+                try:
+                    args['amount'] = Unit(btc = float(args['amount'])).satoshis
+                except OverflowError:
+                    raise ValueError('Infinite amount')
         elif not isinstance(args, dict):
             raise ValueError('Invalid arguments')
 
-- 
2.43.0


From ef721439532495e10571766b5e51d8bd27a7d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:23 +0000
Subject: [PATCH 59/62] fix: objects built from bytearrays or lists could be
 altered, and not be hashed

---
 bitforge/address.py            | 3 +++
 bitforge/hdprivkey.py          | 2 +-
 bitforge/hdpubkey.py           | 2 +-
 bitforge/pubkey.py             | 2 +-
 bitforge/script/instruction.py | 2 ++
 5 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bitforge/address.py b/bitforge/address.py
index 934f9d8..4b927e6 100644
--- a/bitforge/address.py
+++ b/bitforge/address.py
@@ -54,6 +54,9 @@ class Address(BaseAddress):
         if len(phash) != 20:
             raise Address.InvalidHashLength(phash)
 
+        if isinstance(phash, bytearray):
+            phash = bytes(phash) # Addresses are immutable
+
         return super(Address, cls).__new__(cls, phash, network, type)
 
     @staticmethod
diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 382e8bb..1fbdd2c 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -30,7 +30,7 @@ class HDPrivateKey(BaseHDPrivateKey):
         assert isinstance(privkey, PrivateKey)
         fingerprint = int_from_bytes(calculate_fingerprint(privkey))
 
-        return super(HDPrivateKey, cls).__new__(cls, privkey, chain, depth, index, parent, network, fingerprint)
+        return super(HDPrivateKey, cls).__new__(cls, privkey, bytes(chain), depth, index, parent, network, fingerprint)
 
     @staticmethod
     def from_seed(seed = None):
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 935338a..988beff 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -22,7 +22,7 @@ class HDPublicKey(BaseHDPublicKey):
         assert isinstance(pubkey, PublicKey)
         fingerprint = int_from_bytes(calculate_fingerprint(pubkey))
 
-        return super(HDPublicKey, cls).__new__(cls, pubkey, chain, depth, index, parent, network, fingerprint)
+        return super(HDPublicKey, cls).__new__(cls, pubkey, bytes(chain), depth, index, parent, network, fingerprint)
 
     # TODO: massage this
     @staticmethod
diff --git a/bitforge/pubkey.py b/bitforge/pubkey.py
index 3b8f818..1c5c265 100644
--- a/bitforge/pubkey.py
+++ b/bitforge/pubkey.py
@@ -43,7 +43,7 @@ class PublicKey(BasePublicKey):
         if not utils.ecdsa.is_public_pair_valid(generator_secp256k1, pair):
             raise PublicKey.InvalidPair(pair)
 
-        return super(PublicKey, cls).__new__(cls, pair, network, compressed)
+        return super(PublicKey, cls).__new__(cls, tuple(pair), network, compressed)
 
     @staticmethod
     def from_private_key(privkey):
diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 2d04e24..2628c82 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -42,6 +42,8 @@ class Instruction(BaseInstruction):
                (opcode.is_var_push() and not (0 <= length <= expect)):
                 raise Instruction.InvalidDataLength(opcode, length, expect)
 
+            data = bytes(data)
+
         elif data is not None:
             raise Instruction.UnexpectedData(opcode)
 
-- 
2.43.0


From 144022e647c5db0b5a61af4c848ff61ac248a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 60/62] fix: PrivateKey.verify confirmed signatures with wrong
 DER lengths or padding

---
 bitforge/privkey.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 7a8d7dc..a9b2de0 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -22,6 +22,16 @@ def sigencode_canonical(r, s, order):
     return ecdsa.util.sigencode_der(r, min(s, order - s), order)
 
 
+def sigdecode_strict(signature, order):
+    # ecdsa.util.sigdecode_der() ignores wrong lengths and superfluous zeros
+    r, s = ecdsa.util.sigdecode_der(signature, order)
+
+    if ecdsa.util.sigencode_der(r, s, order) != signature:
+        raise ecdsa.der.UnexpectedDER("not a canonical DER encoding")
+
+    return r, s
+
+
 def find_network(value, attr = 'name'):
     try:
         return networks.find(value, attr)
@@ -140,7 +150,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = sigdecode_strict)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From b1e46a92e621f32ebc334762f8603faed218db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:12 +0000
Subject: [PATCH 61/62] fix: refuse WIF texts of another length or compression
 marker in the WIF helpers

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 3d7ef5d..63a733f 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -185,6 +185,8 @@ def wif_to_tuple_of_prefix_secret_exponent_compressed(wif):
     decoded = a2b_hashed_base58(wif)
     actual_prefix, private_key = decoded[:1], decoded[1:]
     compressed = len(private_key) > 32
+    if len(private_key) != 32 and not (len(private_key) == 33 and private_key[-1:] == b'\1'):
+        raise EncodingError("unexpected length or compression marker of WIF %s" % wif)
     return actual_prefix, from_bytes_32(private_key[:32]), compressed
 
 
-- 
2.43.0


From 1b4cf0946d8ad6e0c8be8dfdcd372dce438f12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 62/62] fix: refuse compressed public keys without a point on
 the curve in sec_to_public_pair

---
 bitforge/utils/encoding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 63a733f..72ace68 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -251,9 +251,13 @@ def sec_to_public_pair(sec):
             raise EncodingError("invalid (x, y) pair")
         return public_pair
     if sec0 in (b'\2', b'\3'):
-        from .ecdsa import public_pair_for_x
+        from .ecdsa import is_public_pair_valid, public_pair_for_x
         from .secp256k1 import generator_secp256k1
-        return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        public_pair = public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        # there may be no point with this x
+        if not is_public_pair_valid(generator_secp256k1, public_pair):
+            raise EncodingError("invalid x coordinate")
+        return public_pair
     raise EncodingError("bad sec encoding for public key")
 
 
-- 
2.43.0

