(* Validation of the reference implementations against published vectors.
   Run at the start of every check: a wrong oracle must never judge the code. *)
open Ref
let bad = ref []
let t name got want = if hex got <> want then bad := Printf.sprintf "%s: %s <> %s" name (hex got) want :: !bad
let abc = "abc"
let fox = "The quick brown fox jumps over the lazy dog"
let run () =
  t "md5" (hash md5 fox) "9e107d9d372bb6826bd81d3542a419d6";
  t "md5-0" (hash md5 "") "d41d8cd98f00b204e9800998ecf8427e";
  t "sha1" (hash sha1 abc) "a9993e364706816aba3e25717850c26c9cd0d89d";
  t "sha1-2" (hash sha1 "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq") "84983e441c3bd26ebaae4aa1f95129e5e54670f1";
  t "sha224" (hash sha224 abc) "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7";
  t "sha256" (hash sha256 abc) "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad";
  t "sha384" (hash sha384 abc) "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7";
  t "sha512" (hash sha512 abc) "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f";
  t "rmd" (hash ripemd160 abc) "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc";
  t "sha3-224" (hash (sha3 224) "") "6b4e03423667dbb73b6e15454f0eb1abd4597f9a1b078e3f5b5a6bc7";
  t "sha3-256" (hash (sha3 256) abc) "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532";
  t "sha3-384" (hash (sha3 384) abc) "ec01498288516fc926459f58e2c6ad8df9b473cb0fc08c2596da7cf0e49be4b298d88cea927ac7f539f1edf228376d25";
  t "sha3-512" (hash (sha3 512) abc) "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0";
  t "keccak-256" (hash (keccak 256) "") "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470";
  t "blake2b" (hash (blake2b 512) abc) "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923";
  t "blake2s" (hash (blake2s 256) abc) "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982";
  t "blake3-0" (hash (blake3 256) "") "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262";
  t "blake3-1024+1" (hash (blake3 256) (String.init 1025 (fun i -> Char.chr (i mod 251)))) "d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444";
  t "blake3-31744" (hash (blake3 256) (String.init 31744 (fun i -> Char.chr (i mod 251)))) "62b6960e1a44bcc1eb1a611a8d6235b6b4b78f32e7abc4fb4c6cdcce94895c47";
  t "blake3-keyed-0" (hash ~key:"whats the Elvish word for friend" (blake3 256) "") "92b2b75604ed3c761f9d6f62392c8a9227ad0ea3f09573e783f1498a4ed60d26";
  let k16 = String.init 16 Char.chr in
  t "siphash" (hash ~key:k16 (sip 8) (String.init 15 Char.chr)) "e545be4961ca29a1";
  t "siphash128-0" (hash ~key:k16 (sip 16) "") "a3817f04ba25a8e66df67214c7550293";
  t "hmac-sha256" (hmac sha256 "Jefe" "what do ya want for nothing?") "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843";
  t "hmac-md5" (hmac md5 "Jefe" "what do ya want for nothing?") "750c783e6ab0b503eaa86e310a5db738";
  t "hmac-sha1-longkey" (hmac sha1 (String.make 80 '\xaa') "Test Using Larger Than Block-Size Key - Hash Key First") "aa4ae5e15272d00e95705637ce8a3b55ed402112";
  let fips n = String.init n Char.chr in
  let pt = unhex "00112233445566778899aabbccddeeff" in
  t "aes128" ((aes (fips 16)).enc pt) "69c4e0d86a7b0430d8cdb78070b4c55a";
  t "aes192" ((aes (fips 24)).enc pt) "dda97ca4864cdfe06eaf70a0ec0d7191";
  t "aes256" ((aes (fips 32)).enc pt) "8ea2b7ca516745bfeafc49904b496089";
  t "aes256d" ((aes (fips 32)).dec (unhex "8ea2b7ca516745bfeafc49904b496089")) (hex pt);
  t "des" ((des (unhex "133457799bbcdff1")).enc (unhex "0123456789abcdef")) "85e813540f0ab405";
  t "desd" ((des (unhex "133457799bbcdff1")).dec (unhex "85e813540f0ab405")) "0123456789abcdef";
  t "blowfish" ((blowfish (unhex "0123456789abcdef")).enc (unhex "1111111111111111")) "61f9c3802281b096";
  t "blowfishd" ((blowfish (unhex "fedcba9876543210")).dec (unhex "0aceab0fc6a0a28d")) "0123456789abcdef";
  t "rc4" (xor "Plaintext" (rc4_keystream "Key" 9)) "bbf316e8d940af0ad3";
  t "chacha" (take (c_chacha (fips 32) (unhex "000000090000004a00000000") 1L 1) 16) "10f1e7e4d13b5915500fdd1fa32071c4";
  t "chacha-16" (take (c_chacha (zeros 16) (zeros 8) 0L 1) 16) "89670952608364fd00b2f90936f031c8";
  t "poly1305" (poly1305 (unhex "85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b") "Cryptographic Forum Research Group") "a8061dc1305136c6c22b8baf0c0127a9";
  let m = "Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it." in
  let (_, tag) = chapoly_encrypt (String.init 32 (fun i -> Char.chr (0x80 + i))) (unhex "070000004041424344454647") (unhex "50515253c0c1c2c3c4c5c6c7") m in
  t "chapoly" tag "1ae10b594f09e26a7e902ecbd0600691";
  let (c, tag) = gcm_encrypt (unhex "feffe9928665731c6d6a8f9467308308") (unhex "cafebabefacedbad") (unhex "feedfacedeadbeeffeedfacedeadbeefabaddad2")
    (unhex "d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39") in
  t "gcm5c" c "61353b4c2806934a777ff51fa22a4755699b2a714fcdc6f83766e5f97b6c742373806900e49f24b22b097544d4896b424989b5e1ebac0f07c23f4598";
  t "gcm5t" tag "3612d2e79e3b0785561be14aaca2fccb";
  let ck = unhex "2b7e151628aed2a6abf7158809cf4f3c" in
  t "cmac0" (cmac (aes ck) (zeros 16) "") "bb1d6929e95937287fa37d129b756746";
  t "cmac40" (cmac (aes ck) (zeros 16) (unhex "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411")) "dfa66747de9ae63030ca32611497c827";
  t "cmac16" (cmac (aes ck) (zeros 16) (unhex "6bc1bee22e409f96e93d7e117393172a")) "070a16b46b4d4144f79bdd9dd04a287c";
  t "cbc" (cbc_enc (aes ck) (fips 16) (unhex "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")) "7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2";
  t "cfb8" (cfb true 1 (aes ck) (fips 16) (unhex "6bc1bee22e409f96e93d")) "3b79424c9c0dd436bace";
  t "cfb128" (cfb true 16 (aes ck) (fips 16) (unhex "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")) "3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b";
  t "ofb128" (ofb 16 (aes ck) (fips 16) (unhex "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")) "3b3fd92eb72dad20333449f8e83cfb4a7789508d16918f03f53c52dac54ed825";
  t "ctr" (ctr 16 (aes ck) (unhex "f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff") (unhex "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")) "874d6191b620e3261bef6864990db6ce9806f66b7970fdff8617187bb9fffdff";
  t "b64" (b64 ~pad:true "fooba") (hex "Zm9vYmE=");
  !bad
