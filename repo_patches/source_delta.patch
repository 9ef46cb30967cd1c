From a5d2ee474cab27ba7c6107f7c7f179dccf83092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 1/7] fix: keep XORed blocks and private keys at their full
 length

XOR results and products were serialised with the minimal number of bytes,
so a leading zero byte (about 1 in 128 inputs) made encrypt and
create_new_encrypted_wif fail and made decrypt and confirm_code refuse the
right passphrase.
---
 bip38/bip38.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index b24b245..eba0708 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -209,10 +209,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16])
+            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
+            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
         ))
 
         encrypted_private_key: bytes = (
@@ -316,10 +316,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_wif: str = ensure_string(check_encode((
             integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX) +
@@ -331,10 +331,10 @@ class BIP38:
             (bytes_to_integer(scrypt_hash[63:]) & 1) ^ bytes_to_integer(point_b[:1])
         )
         point_b_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1), 16
         ))
         point_b_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_point_b: bytes = (
             point_b_prefix + point_b_half_1 + point_b_half_2
@@ -425,10 +425,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         point_b_half_1: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
+            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
         )
         point_b_half_2: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32])
+            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32]), 16
         )
         point_b_prefix: bytes = integer_to_bytes(
             bytes_to_integer(encrypted_point_b[:1]) ^ (bytes_to_integer(scrypt_hash[63:]) & 1)
@@ -541,7 +541,7 @@ class BIP38:
             decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
 
             private_key: bytes = integer_to_bytes(
-                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1)
+                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                 raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
@@ -597,7 +597,7 @@ class BIP38:
 
             aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
             encrypted_half_1_half_2_seed_b_last_3 = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32])
+                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32]), 16
             )
             encrypted_half_1_half_2: bytes = encrypted_half_1_half_2_seed_b_last_3[:8]
             encrypted_half_1: bytes = (
@@ -605,7 +605,7 @@ class BIP38:
             )
 
             seed_b: bytes = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16])
+                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
             ) + encrypted_half_1_half_2_seed_b_last_3[8:]
 
             factor_b: bytes = double_sha256(seed_b)
@@ -614,7 +614,7 @@ class BIP38:
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N
+                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32
             )
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             wif_type: Literal["wif", "wif-compressed"] = "wif"
-- 
2.43.0


From cd060da66b9998362f84bbe990c569c3df11b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 2/7] fix: reject characters outside the base58 alphabet when
 decoding

An unknown character was silently counted as digit -1, so distinct strings
decoded to the same bytes ("z" and "20"), checksum included.
---
 bip38/libs/base58.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip38/libs/base58.py b/bip38/libs/base58.py
index dd0f95f..ea405c1 100644
--- a/bip38/libs/base58.py
+++ b/bip38/libs/base58.py
@@ -51,7 +51,10 @@ def decode(data, alphabet=__base58_alphabet):
     val = 0
     prefix = 0
     for c in data:
-        val = (val * len(alphabet)) + alphabet.encode("utf-8").find(c)
+        digit = alphabet.encode("utf-8").find(c)
+        if digit < 0:
+            raise ValueError("base58 decoding invalid character")
+        val = (val * len(alphabet)) + digit
         if val == 0:
             prefix += 1
 
-- 
2.43.0


From 4ddde03b3b47bf5028791806a7af874d5dcabe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 3/7] fix: verify the checksum of an encrypted WIF before
 decrypting it

A mistyped encrypted key was accepted when only the checksum bytes differed,
and was otherwise reported as a wrong passphrase.
---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index eba0708..45259d6 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -508,6 +508,8 @@ class BIP38:
         encrypted_wif_decode: bytes = decode(encrypted_wif)
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
+        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
+            raise WIFError("Invalid encrypted WIF checksum")
 
         prefix: bytes = encrypted_wif_decode[:2]
         flag: bytes = encrypted_wif_decode[2:3]
-- 
2.43.0


From 68ccb0162af7823c99c1e4417f23e0aac20ea66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 4/7] fix: verify the checksum and compression marker of a WIF

decode_wif returned the checksum without checking it, so a mistyped WIF
yielded, and encrypt then protected, a different private key.
---
 bip38/wif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index 83b8a06..7dc6c32 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -82,12 +82,16 @@ def decode_wif(
 
     raw_without_prefix: bytes = raw[prefix_length:]
     checksum: bytes = raw_without_prefix[-1 * 4:]
+    if get_checksum(raw[:-1 * 4]) != checksum:
+        raise WIFError("Invalid Wallet Import Format (WIF) checksum")
     private_key: bytes = raw_without_prefix[:-1 * 4]
     wif_type: str = "wif"
 
     if len(private_key) not in [33, 32]:
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
     elif len(private_key) == 33:
+        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
+            raise WIFError(f"Invalid Wallet Import Format (WIF)")
         private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
         wif_type = "wif-compressed"
 
-- 
2.43.0


From fe48ba1b2d083b96fc7a2d64b91924bacf798e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 5/7] fix: honour lot and sequence numbers equal to zero

Sequence 0 is documented as valid but was treated as missing, silently
producing an intermediate code without lot and sequence (or, with a 4 byte
owner salt, an unusable one); lot 0 was accepted instead of refused.
---
 bip38/bip38.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 45259d6..6a73b8c 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -124,10 +124,10 @@ class BIP38:
             raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
         if len(owner_salt) == 4 and (lot is None or sequence is None):
             raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
-        if (lot and sequence is None) or (lot is None and sequence):
+        if (lot is None) != (sequence is None):
             raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
 
-        if lot and sequence:
+        if lot is not None and sequence is not None:
             lot, sequence = int(lot), int(sequence)
             if not 100000 <= lot <= 999999:
                 raise Error("Invalid lot", expected="100000 <= lot <= 999999", got=lot)
-- 
2.43.0


From d42c380b772e810ec95068c9e54652b094d5cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 6/7] fix: refuse a seed that is not 24 bytes long

A shorter seed was accepted and produced an encrypted key that its own
passphrase could never decrypt.
---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 6a73b8c..7830726 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -261,6 +261,8 @@ class BIP38:
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
         seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
+        if len(seed_b) != 24:
+            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
         try:
             intermediate_decode: bytes = check_decode(intermediate_passphrase)
         except ValueError:
-- 
2.43.0


From 0e609eb5fdad403fd47ad1330ddc18bc9bb5dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 7/7] fix: refuse bytes and coordinates that are not a point of
 the curve

Point.from_bytes accepted off-curve and out-of-range coordinates, and
Point.from_coordinates left them to an assert of the ecdsa package.
---
 bip38/secp256k1/point.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 1f69c71..87f4106 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -44,11 +44,10 @@ class Point:
         """
 
         try:
-            return cls(
-                PointJacobi.from_bytes(
-                    curve_secp256k1, point
-                )
+            point_obj: PointJacobi = PointJacobi.from_bytes(
+                curve_secp256k1, point
             )
+            return cls.from_coordinates(point_obj.x(), point_obj.y())
         except keys.MalformedPointError as ex:
             raise Secp256k1Error("Invalid point key bytes") from ex
         except AttributeError:
@@ -71,6 +70,9 @@ class Point:
         :rtype: IPoint
         """
 
+        p: int = curve_secp256k1.p()
+        if not (0 <= x < p and 0 <= y < p and curve_secp256k1.contains_point(x, y)):
+            raise Secp256k1Error("Invalid point coordinates")
         return cls(
             PointJacobi.from_affine(
                 _Point(curve_secp256k1, x, y)
-- 
2.43.0

