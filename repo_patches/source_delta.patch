From 7cec0e84fc1c4a1a8de9f0d3db2d46344d14b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 01/20] fix: conversion of big numbers to sizes that are not a
 multiple of 64 bits

Z.to_bits returns a whole number of machine words, so Bignum.to_bytes
failed with an out-of-bounds index whenever this is longer than the number
of bytes requested: RSA, DH and Paillier with sizes such as 1000 or 1088 bits,
mod_power and mod_mult with a modulus whose length is not a multiple of 8.
---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 7cb53a1..583aa37 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -84,7 +84,9 @@ let to_bytes ?numbits n =
     | None -> String.length s
     | Some nb -> assert (Z.numbits n <= nb); (nb + 7) / 8 in
   let t = Bytes.make l '\000' in
-  for i = 0 to String.length s - 1 do
+  (* s is a whole number of machine words, hence can be longer than l;
+     the extra bytes are zeroes *)
+  for i = 0 to min (String.length s) l - 1 do
     Bytes.set t (l - 1 - i) s.[i]
   done;
   wipe_bytes (Bytes.unsafe_of_string s);
-- 
2.43.0


From 23338357b9e400a2d7ea0d724bae652a84a18633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 02/20] fix: modular exponentiation with a zero exponent or an
 even modulus

Z.powm_sec raises Invalid_argument in these cases, so Paillier.encrypt
failed on the message 0, and mod_power on even moduli.
---
 src/cryptokitBignum.ml | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 583aa37..03e922f 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -36,7 +36,11 @@ let lcm = Z.lcm
 let relative_prime a b =
   Z.equal (Z.gcd a b) Z.one
 
-let mod_power = Z.powm_sec
+(* Z.powm_sec requires a positive exponent and an odd modulus. *)
+let mod_power a b c =
+  if Z.sign b > 0 && Z.is_odd c
+  then Z.powm_sec a b c
+  else Z.powm a b c
 
 let sub_mod a b p =
   let d = Z.sub a b in
-- 
2.43.0


From 37d68431aadd134c1fafefbe2a05ef29bf88bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 03/20] fix: RSA CRT operations with keys such that p < q

mp - mq can be less than -p if q > p, in which case adding p once is not
enough and decrypt_CRT / sign_CRT failed or returned a wrong result.
---
 src/cryptokitBignum.ml | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 03e922f..567c7e1 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -42,9 +42,7 @@ let mod_power a b c =
   then Z.powm_sec a b c
   else Z.powm a b c
 
-let sub_mod a b p =
-  let d = Z.sub a b in
-  if Z.sign d < 0 then Z.add d p else d
+let sub_mod a b p = Z.erem (Z.sub a b) p
 
 (* Modular exponentiation via the Chinese Remainder Theorem.
    Compute a ^ d mod pq, where d is defined by
-- 
2.43.0


From 2a3a7be38766e916caf4a9ae70161ac90d962af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 04/20] fix: hash_size of SHA-224 and RIPEMD-160

SHA-224 hashes are 28 bytes long and RIPEMD-160 hashes 20 bytes.
The wrong sizes also made auth_check_transform_string reject valid
messages for authenticated transforms built from these hashes.
---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..cde14df 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1098,7 +1098,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
@@ -1220,7 +1220,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
-- 
2.43.0


From c3b3fa4e63233f23ef1c79d73896f54d612260e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 05/20] fix: Zlib compression, flushing when there is nothing
 to flush

Flushing twice in a row, or a flush whose output exactly fills the output
buffer, raised Compression_error because deflate() returns Z_BUF_ERROR.
---
 src/stubs-zlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..a386356 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -110,7 +110,10 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
+  /* Z_BUF_ERROR is not fatal: it means that there was nothing to do,
+     e.g. when flushing twice in a row */
+  if (retcode < 0 && retcode != Z_BUF_ERROR)
+    caml_zlib_error("Zlib.deflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
-- 
2.43.0


From 2911cee487bc9a739fe5793dabdeab0dc11966a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 06/20] fix: Zlib decompression, detect truncated data

The dummy byte fed by "finish" (needed only by zlib 1.1) was consumed as
part of the compressed data, so that some truncated streams were accepted.
---
 src/cryptokit.ml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cde14df..c643bcd 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2603,16 +2603,16 @@ class uncompress expect_zlib_header =
     method flush = ()
 
     method finish =
-      let rec do_finish first_finish =
+      let rec do_finish () =
         self#ensure_capacity 256;
         let (finished, _, used_out) =
            inflate zs
-                   (Bytes.unsafe_of_string " ") 0 (if first_finish then 1 else 0)
+                   (Bytes.unsafe_of_string "") 0 0
                    obuf oend (Bytes.length obuf - oend)
                    Z_SYNC_FLUSH in
         oend <- oend + used_out;
-        if not finished then do_finish false in
-      do_finish true; inflate_end zs
+        if not finished then do_finish () in
+      do_finish (); inflate_end zs
 
     method wipe =
       output_buffer#wipe
-- 
2.43.0


From c6062060a56ca501af271b846d71099efe727f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 07/20] fix: Zlib transforms, check the bounds of put_substring

Out-of-range arguments caused reads outside of the buffer.
---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index c643bcd..32b8e7e 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2522,6 +2522,8 @@ class compress level write_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.compress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
@@ -2577,6 +2579,8 @@ class uncompress expect_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.uncompress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
-- 
2.43.0


From c56e343aec8b973a197b1decbf6c3c7d7783c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 08/20] fix: CBC encryption, check the bounds of the source
 block

An out-of-range offset caused a read outside of the source buffer.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 32b8e7e..385fe7d 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -654,6 +654,8 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From ed96a1ee691c23920b11268656b984ae483c8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 09/20] fix: Stream.cipher, check the bounds of put_substring

Chacha20-Poly1305 decryption hashed the data before the bounds were checked,
reading outside of the source buffer, and huge lengths made the computation
of the new size of the output buffer loop.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 385fe7d..526dc25 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1044,6 +1044,8 @@ class cipher (cipher : stream_cipher) =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Stream.cipher#put_substring";
       self#ensure_capacity len;
       cipher#transform src ofs obuf oend len;
       oend <- oend + len
-- 
2.43.0


From 748b0731eb1003847cf42d4794114eb602bd89ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 10/20] fix: MAC.blake3 and MAC.blake3_256, reject the empty
 key

An empty key silently produced the unkeyed BLAKE3 hash.
---
 src/cryptokit.ml | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 526dc25..ec79542 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1470,8 +1470,10 @@ let blake2b512 key = new Hash.blake2b 512 key
 let blake2s sz key = new Hash.blake2s sz key
 let blake2s256 key = new Hash.blake2s 256 key
 
-let blake3 sz key = new Hash.blake3 key sz
-let blake3_256 key = new Hash.blake3 key 256
+let blake3 sz key =
+  if String.length key <> 32 then raise (Error Wrong_key_size);
+  new Hash.blake3 key sz
+let blake3_256 key = blake3 256 key
 
 let aes ?iv ?pad key =
   new Block.mac ?iv ?pad (new Block.aes_encrypt key)
-- 
2.43.0


From 704ceca2617dfc71f2e35628ac6fb74b37530900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 11/20] fix: Chacha20 with a 12-byte IV, accept all 32-bit
 counters

Counters between 2^24 and 2^32-1 were rejected, and negative counters
were accepted.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index ec79542..880033d 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1019,7 +1019,7 @@ class chacha20 ?iv ?(ctr = 0L) key =
         | None -> Bytes.make 8 '\000'
         | Some s ->
             if String.length s = 8
-            || String.length s = 12 && ctr < 0x1_000_000L
+            || String.length s = 12 && ctr >= 0L && ctr < 0x1_0000_0000L
             then Bytes.of_string s
             else raise (Error Wrong_IV_size) in
       chacha20_cook_key key iv ctr
-- 
2.43.0


From 59e9c2f86447092ad69bb3aadb58c299f8184aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 12/20] fix: SipHash initialization, protect the key from the
 GC

The key can be moved by the allocation of the context.
---
 src/stubs-siphash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From 0b5cce047517c7874625777e105eaf1be26b39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:52 +0000
Subject: [PATCH 13/20] fix: GHASH initialization, protect the key from the GC

In the software implementation, the key can be moved by the allocation
of the context.
---
 src/stubs-ghash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..08b7aaa 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -40,9 +40,10 @@ static struct custom_operations ghash_context_ops = {
 
 CAMLprim value caml_ghash_init(value key)
 {
+  CAMLparam1(key);
   if (pclmul_available == -1) pclmul_check_available();
   if (pclmul_available == 1) {
-    return key;
+    CAMLreturn(key);
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
     value res =
@@ -51,7 +52,7 @@ CAMLprim value caml_ghash_init(value key)
                         0, 1);
     ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
-    return res;
+    CAMLreturn(res);
   }
 }
 
-- 
2.43.0


From 93a9e63c81403c4ce8080d2ec899ac83d607d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:51 +0000
Subject: [PATCH 14/20] fix: AES-GCM wipe, erase the authentication state and
 the counters

---
 src/cryptokit.ml  |  9 +++++++--
 src/stubs-ghash.c | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 880033d..21ad262 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -124,6 +124,7 @@ external blake2s_final: bytes -> int -> string = "caml_blake2s_final"
 type ghash_context
 external ghash_init: bytes -> ghash_context = "caml_ghash_init"
 external ghash_mult: ghash_context -> bytes -> unit = "caml_ghash_mult"
+external ghash_wipe: ghash_context -> unit = "caml_ghash_wipe"
 external poly1305_init: bytes -> bytes = "caml_poly1305_init"
 external poly1305_update: bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
 external poly1305_final: bytes -> string = "caml_poly1305_final"
@@ -1642,7 +1643,9 @@ class aes_gcm_encrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ctr_enc_dec aes ctr buf src soff dst doff 16;
         ghash_block h mac dst doff 16;
@@ -1693,7 +1696,9 @@ class aes_gcm_decrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ghash_block h mac src soff 16;
         ctr_enc_dec aes ctr buf src soff dst doff 16;
diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 08b7aaa..2d75c82 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -65,3 +65,13 @@ CAMLprim value caml_ghash_mult(value ctx, value x)
   }
   return Val_unit;
 }
+
+CAMLprim value caml_ghash_wipe(value ctx)
+{
+  if (pclmul_available == 1) {
+    memset(&Byte_u(ctx, 0), 0, 16);
+  } else {
+    memset(Context_val(ctx), 0, sizeof(struct ghash_context));
+  }
+  return Val_unit;
+}
-- 
2.43.0


From cee1188f9938215de5dfb2b859ef4f13a8264f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:51 +0000
Subject: [PATCH 15/20] fix: pseudo_rng_aes_ctr wipe, erase the AES key and the
 counter

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 21ad262..c1c4841 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1954,7 +1954,7 @@ class pseudo_rng_aes_ctr seed =
       end
 
     method wipe =
-      wipe_bytes obuf; wipe_string seed
+      cipher#wipe; wipe_bytes ctr; wipe_bytes obuf; wipe_string seed
   end
 
 let pseudo_rng_aes_ctr seed = new pseudo_rng_aes_ctr seed
-- 
2.43.0


From bd5bc8d5ed178a2ec921592c44c722f9db3a6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:52 +0000
Subject: [PATCH 16/20] fix: CTR mode, produce no output once the counter is
 exhausted

---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index c1c4841..23b18b2 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -755,12 +755,12 @@ class ctr ?iv:iv_init ?inc (cipher : block_cipher) =
       if nincr < 8 then Int64.(shift_left 1L (nincr * 8)) else 0L
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      let m = Int64.pred max_transf in
+      if m = 0L then raise (Error Message_too_long);
       cipher#transform iv 0 out 0;
       Bytes.blit src src_off dst dst_off blocksize;
       xor_bytes out 0 dst dst_off blocksize;
       increment_counter iv (blocksize - nincr) (blocksize - 1);
-      let m = Int64.pred max_transf in
-      if m = 0L then raise (Error Message_too_long);
       max_transf <- m
     method wipe =
       cipher#wipe;
-- 
2.43.0


From 41c1b50a865aab2fe94651bdb5c042041033de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:26 +0000
Subject: [PATCH 17/20] fix: Base64 and Hexa transforms check the range given
 to put_substring

A huge length made ofs + len overflow, so that an invalid range was
silently ignored instead of raising Invalid_argument.
---
 src/cryptokit.ml | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 23b18b2..275945d 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2288,6 +2288,8 @@ class encode multiline padding =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2377,6 +2379,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2431,6 +2435,8 @@ class encode =
     method put_char c = self#put_byte (Char.code c)
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2476,6 +2482,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
-- 
2.43.0


From bc3d5989f09fb765ce584516967f0143f5531443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:17 +0000
Subject: [PATCH 18/20] fix: Zlib transforms, process ranges of 4 Gbytes and
 more entirely

The count of available bytes is a 32-bit number in Zlib's interface.
A longer range was silently truncated, yet reported as entirely used.
---
 src/stubs-zlib.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index a386356..1b2c70b 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -92,6 +92,17 @@ value caml_zlib_deflateInit(value vlevel, value expect_header)
   return vzs;
 }
 
+/* The counts of available bytes are of type [uInt], narrower than [long].
+   Long ranges are processed piecewise: the caller sees from the
+   counts of bytes used that some of its data remains. */
+
+#define MAX_AVAIL 0x40000000L
+
+static uInt caml_zlib_avail(value len)
+{
+  return Long_val(len) > MAX_AVAIL ? MAX_AVAIL : Long_val(len);
+}
+
 static int caml_zlib_flush_table[] = 
 { Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };
 
@@ -103,19 +114,21 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   z_stream * zs = ZStream_val(vzs);
   int retcode;
   long used_in, used_out;
+  uInt avail_in = caml_zlib_avail(srclen);
+  uInt avail_out = caml_zlib_avail(dstlen);
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = avail_in;
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = avail_out;
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR is not fatal: it means that there was nothing to do,
      e.g. when flushing twice in a row */
   if (retcode < 0 && retcode != Z_BUF_ERROR)
     caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = avail_in - zs->avail_in;
+  used_out = avail_out - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
@@ -151,17 +164,19 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   z_stream * zs = ZStream_val(vzs);
   int retcode;
   long used_in, used_out;
+  uInt avail_in = caml_zlib_avail(srclen);
+  uInt avail_out = caml_zlib_avail(dstlen);
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = avail_in;
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = avail_out;
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   if (retcode < 0 || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = avail_in - zs->avail_in;
+  used_out = avail_out - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
-- 
2.43.0


From 2471cfb8c28d0e87d87d7dfa7e704334fc867357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:17 +0000
Subject: [PATCH 19/20] fix: MD5, hash ranges of 4 Gbytes and more entirely

The length is a uintnat in the OCaml runtime system, but was declared
here as an unsigned int, so that longer ranges were truncated.
---
 src/stubs-md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stubs-md5.c b/src/stubs-md5.c
index ceccb32..7434eef 100644
--- a/src/stubs-md5.c
+++ b/src/stubs-md5.c
@@ -30,7 +30,7 @@ struct MD5Context {
 
 CAMLextern void caml_MD5Init (struct MD5Context *context);
 CAMLextern void caml_MD5Update (struct MD5Context *context,
-                           unsigned char *buf, unsigned len);
+                           unsigned char *buf, uintnat len);
 CAMLextern void caml_MD5Final (unsigned char *digest, struct MD5Context *ctx);
 
 #define Context_val(v) ((struct MD5Context *) String_val(v))
-- 
2.43.0


From c6374f60c7ba1e85d15628e1bd8c9e76162c31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:54 +0000
Subject: [PATCH 20/20] fix: Zlib transforms, release zlib's memory when an
 unfinished transform is collected

---
 src/stubs-zlib.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 1b2c70b..40c1a5f 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -61,13 +61,32 @@ void caml_zlib_free_stream(value vzs)
   ZStream_val(vzs) = NULL;
 }
 
-static struct custom_operations caml_zlib_stream_ops = {
-  "caml_zlib_stream_ops", &caml_zlib_free_stream, NULL, NULL, NULL, NULL
+/* The [deflateEnd] and [inflateEnd] functions do nothing (but return an
+   error code) if the stream was already ended, or never initialized. */
+
+static void caml_zlib_free_deflate_stream(value vzs)
+{
+  deflateEnd(ZStream_val(vzs));
+  caml_zlib_free_stream(vzs);
+}
+
+static void caml_zlib_free_inflate_stream(value vzs)
+{
+  inflateEnd(ZStream_val(vzs));
+  caml_zlib_free_stream(vzs);
+}
+
+static struct custom_operations caml_zlib_deflate_stream_ops = {
+  "caml_zlib_stream_ops", &caml_zlib_free_deflate_stream, NULL, NULL, NULL, NULL
+};
+
+static struct custom_operations caml_zlib_inflate_stream_ops = {
+  "caml_zlib_stream_ops", &caml_zlib_free_inflate_stream, NULL, NULL, NULL, NULL
 };
 
-static value caml_zlib_new_stream(void)
+static value caml_zlib_new_stream(struct custom_operations * ops)
 {
-  value res = caml_alloc_custom(&caml_zlib_stream_ops, sizeof(z_streamp), 0, 1);
+  value res = caml_alloc_custom(ops, sizeof(z_streamp), 0, 1);
 
   ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));
   ZStream_val(res)->zalloc = NULL;
@@ -75,13 +94,14 @@ static value caml_zlib_new_stream(void)
   ZStream_val(res)->opaque = NULL;
   ZStream_val(res)->next_in = NULL;
   ZStream_val(res)->next_out = NULL;
+  ZStream_val(res)->state = NULL;
   return res;
 }
 
 CAMLprim
 value caml_zlib_deflateInit(value vlevel, value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_deflate_stream_ops);
   if (deflateInit2(ZStream_val(vzs),
                    Int_val(vlevel),
                    Z_DEFLATED,
@@ -149,7 +169,7 @@ value caml_zlib_deflateEnd(value vzs)
 CAMLprim
 value caml_zlib_inflateInit(value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_inflate_stream_ops);
   if (inflateInit2(ZStream_val(vzs),
                    Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)
     caml_zlib_error("Zlib.inflateInit", vzs);
-- 
2.43.0

