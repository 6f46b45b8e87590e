(* OCaml side of the reference implementations: constructions defined on top
   of the primitives of cref.c, written as one-shot functions on strings. *)

external c_hash : int -> int -> string -> string -> string = "vref_hash"
external c_hash_rep : int -> int -> string -> string -> int -> string = "vref_hash_rep"
external c_aes : string -> bool -> string -> string = "vref_aes"
external c_des : string -> bool -> string -> string = "vref_des"
external c_chacha : string -> string -> int64 -> int -> string = "vref_chacha"
external c_ghash : string -> string -> string = "vref_ghash"

let hex s = String.concat "" (List.map (fun c -> Printf.sprintf "%02x" (Char.code c)) (List.of_seq (String.to_seq s)))
let unhex s =
  let v c = match c with '0'..'9' -> Char.code c - 48 | 'a'..'f' -> Char.code c - 87
                       | 'A'..'F' -> Char.code c - 55 | _ -> invalid_arg "unhex" in
  String.init (String.length s / 2) (fun i -> Char.chr (v s.[2*i] * 16 + v s.[2*i+1]))

let xor a b = String.init (String.length a) (fun i -> Char.chr (Char.code a.[i] lxor Char.code b.[i]))
let zeros n = String.make n '\000'
let sub = String.sub
let take s n = String.sub s 0 n
let drop s n = String.sub s n (String.length s - n)

(* ---- hashes ---- *)
type hash_id = { alg : int; out : int; block : int }
let md5 = {alg=0; out=16; block=64}
let sha1 = {alg=1; out=20; block=64}
let sha224 = {alg=2; out=28; block=64}
let sha256 = {alg=3; out=32; block=64}
let sha384 = {alg=4; out=48; block=128}
let sha512 = {alg=5; out=64; block=128}
let ripemd160 = {alg=6; out=20; block=64}
let sha3 bits = {alg=7; out=bits/8; block=200-bits/4}
let keccak bits = {alg=8; out=bits/8; block=200-bits/4}
let blake2b bits = {alg=9; out=bits/8; block=128}
let blake2s bits = {alg=10; out=bits/8; block=64}
let blake3 bits = {alg=11; out=bits/8; block=64}
let sip out = {alg=12; out; block=8}
let hash ?(key="") h msg = c_hash h.alg h.out key msg
(* hash of the first [total] bytes of pat pat pat ... *)
let hash_rep ?(key="") h pat total = c_hash_rep h.alg h.out key pat total

let hmac h key msg =
  let key = if String.length key > h.block then hash h key else key in
  let key = key ^ zeros (h.block - String.length key) in
  let pad b = String.map (fun c -> Char.chr (Char.code c lxor b)) key in
  hash h (pad 0x5c ^ hash h (pad 0x36 ^ msg))

(* ---- block ciphers: (blocksize, encrypt one block, decrypt one block) ---- *)
type bc = { bs : int; enc : string -> string; dec : string -> string }
let aes key = { bs = 16; enc = c_aes key false; dec = c_aes key true }
let des key = { bs = 8; enc = c_des key false; dec = c_des key true }
let tdes key =
  let k1 = sub key 0 8 and k2 = sub key 8 8 in
  let k3 = if String.length key = 24 then sub key 16 8 else k1 in
  { bs = 8; enc = (fun b -> c_des k3 false (c_des k2 true (c_des k1 false b)));
    dec = (fun b -> c_des k1 true (c_des k2 false (c_des k3 true b))) }

(* Blowfish: boxes are the hexadecimal expansion of pi, computed here *)
let bf_tables = lazy (
  let words = 18 + 1024 in
  let prec = words * 32 + 64 in
  let one = Z.shift_left Z.one prec in
  let atan_inv x =
    let x2 = Z.of_int (x * x) in
    let rec go t n sign acc =
      if Z.equal t Z.zero then acc else
      let term = Z.div t (Z.of_int n) in
      go (Z.div t x2) (n + 2) (not sign) (if sign then Z.add acc term else Z.sub acc term) in
    go (Z.div one (Z.of_int x)) 1 true Z.zero in
  let pi = Z.sub (Z.mul (Z.of_int 16) (atan_inv 5)) (Z.mul (Z.of_int 4) (atan_inv 239)) in
  let frac = Z.sub pi (Z.shift_left (Z.of_int 3) prec) in
  Array.init words (fun i ->
    Z.to_int (Z.logand (Z.shift_right frac (prec - 32 * (i + 1))) (Z.of_string "0xffffffff"))))
let m32 = 0xffffffff
let bf_key key =
  let t = Lazy.force bf_tables in
  let p = Array.sub t 0 18 in
  let s = Array.init 4 (fun i -> Array.sub t (18 + 256 * i) 256) in
  let f x = ((((s.(0).(x lsr 24) + s.(1).((x lsr 16) land 255)) land m32)
              lxor s.(2).((x lsr 8) land 255)) + s.(3).(x land 255)) land m32 in
  let enc l r =
    let l = ref l and r = ref r in
    for i = 0 to 15 do
      l := !l lxor p.(i); r := !r lxor f !l;
      let t = !l in l := !r; r := t
    done;
    let t = !l in l := !r; r := t;
    r := !r lxor p.(16); l := !l lxor p.(17); (!l, !r) in
  let dec l r =
    let l = ref l and r = ref r in
    for i = 17 downto 2 do
      l := !l lxor p.(i); r := !r lxor f !l;
      let t = !l in l := !r; r := t
    done;
    let t = !l in l := !r; r := t;
    r := !r lxor p.(1); l := !l lxor p.(0); (!l, !r) in
  let kl = String.length key in
  for i = 0 to 17 do
    let w = ref 0 in
    for j = 0 to 3 do w := (!w lsl 8) lor Char.code key.[(4 * i + j) mod kl] done;
    p.(i) <- p.(i) lxor !w
  done;
  let l = ref 0 and r = ref 0 in
  let step set i = let (a, b) = enc !l !r in l := a; r := b; set i a; set (i + 1) b in
  for i = 0 to 8 do step (fun i v -> p.(i) <- v) (2 * i) done;
  for k = 0 to 3 do for i = 0 to 127 do step (fun i v -> s.(k).(i) <- v) (2 * i) done done;
  (enc, dec)
let be32 s o = Int32.to_int (String.get_int32_be s o) land m32
let blowfish key =
  let (e, d) = bf_key key in
  let wrap f b =
    let (l, r) = f (be32 b 0) (be32 b 4) in
    let o = Bytes.create 8 in
    Bytes.set_int32_be o 0 (Int32.of_int l); Bytes.set_int32_be o 4 (Int32.of_int r);
    Bytes.unsafe_to_string o in
  { bs = 8; enc = wrap e; dec = wrap d }

(* ---- chaining modes; input length must be a multiple of the unit ---- *)
let units n s = List.init (String.length s / n) (fun i -> sub s (n * i) n)
let ecb dir bc s = String.concat "" (List.map (if dir then bc.enc else bc.dec) (units bc.bs s))
let cbc_enc bc iv s =
  let iv = ref iv in
  String.concat "" (List.map (fun b -> iv := bc.enc (xor b !iv); !iv) (units bc.bs s))
let cbc_dec bc iv s =
  let iv = ref iv in
  String.concat "" (List.map (fun c -> let p = xor (bc.dec c) !iv in iv := c; p) (units bc.bs s))
let cfb dir n bc iv s =
  let iv = ref iv in
  String.concat "" (List.map (fun b ->
    let o = xor b (take (bc.enc !iv) n) in
    iv := drop !iv n ^ (if dir then o else b); o) (units n s))
(* output feedback with full-block feedback *)
let ofb n bc iv s =
  let iv = ref iv in
  String.concat "" (List.map (fun b -> iv := bc.enc !iv; xor b (take !iv n)) (units n s))
(* counter block number i: the low [inc] bytes of iv incremented i times *)
let ctr_block iv inc i =
  let n = String.length iv in
  let b = Bytes.of_string iv in
  let rec add pos v =
    if pos >= n - inc && v > 0 then begin
      let x = Char.code (Bytes.get b pos) + (v land 255) in
      Bytes.set b pos (Char.chr (x land 255));
      add (pos - 1) ((v lsr 8) + (x lsr 8))
    end in
  add (n - 1) i; Bytes.unsafe_to_string b
let ctr inc bc iv s =
  let b = Buffer.create (String.length s) in
  for i = 0 to String.length s / bc.bs - 1 do
    Buffer.add_string b (xor (sub s (i * bc.bs) bc.bs) (bc.enc (ctr_block iv inc i)))
  done;
  Buffer.contents b

(* ---- padding ---- *)
let pad_length n s = let k = n - String.length s mod n in s ^ String.make k (Char.chr k)
let pad_8000 n s = let k = n - String.length s mod n in s ^ "\x80" ^ zeros (k - 1)

(* ---- MACs from block ciphers ---- *)
let cbc_mac bc iv s = if s = "" then iv else let c = cbc_enc bc iv s in drop c (String.length c - bc.bs)
let dbl s =
  let n = String.length s in
  let b = Bytes.make n '\000' in
  for i = 0 to n - 1 do
    let c = Char.code s.[i] and d = if i + 1 < n then Char.code s.[i+1] else 0 in
    Bytes.set b i (Char.chr (((c lsl 1) lor (d lsr 7)) land 255))
  done;
  if Char.code s.[0] land 0x80 <> 0 then
    Bytes.set b (n-1) (Char.chr (Char.code (Bytes.get b (n-1)) lxor 0x87));
  Bytes.to_string b
let cmac bc iv s =
  let k1 = dbl (bc.enc (zeros 16)) in
  let k2 = dbl k1 in
  let l = String.length s in
  let full = l > 0 && l mod 16 = 0 in
  let nlast = if full then 16 else l mod 16 in
  let head = take s (l - nlast) and last = drop s (l - nlast) in
  let last = if full then xor last k1 else xor (pad_8000 16 last) k2 in
  cbc_mac bc iv (head ^ last)

(* ---- stream ciphers ---- *)
let rc4_keystream key n =
  let s = Array.init 256 (fun i -> i) in
  let swap i j = let t = s.(i) in s.(i) <- s.(j); s.(j) <- t in
  let j = ref 0 in
  for i = 0 to 255 do
    j := (!j + s.(i) + Char.code key.[i mod String.length key]) land 255; swap i !j
  done;
  let i = ref 0 in j := 0;
  String.init n (fun _ ->
    i := (!i + 1) land 255; j := (!j + s.(!i)) land 255; swap !i !j;
    Char.chr s.((s.(!i) + s.(!j)) land 255))
external c_rc4_at : string -> int -> int -> string = "vref_rc4_at"
let rc4_at key pos n = c_rc4_at key pos n
let chacha_keystream ?(iv = zeros 8) ?(ctr = 0L) key n =
  take (c_chacha key iv ctr ((n + 63) / 64)) n

(* ---- AEAD ---- *)
let pad16 s = let r = String.length s land 15 in if r = 0 then s else s ^ zeros (16 - r)
let be64s n = let b = Bytes.create 8 in Bytes.set_int64_be b 0 (Int64.of_int n); Bytes.unsafe_to_string b
let le64s n = let b = Bytes.create 8 in Bytes.set_int64_le b 0 (Int64.of_int n); Bytes.unsafe_to_string b
let gcm_j0 h iv =
  if String.length iv = 12 then iv ^ "\000\000\000\001"
  else c_ghash h (pad16 iv ^ zeros 8 ^ be64s (8 * String.length iv))
let gcm_tag key iv header cipher =
  let bc = aes key in
  let h = bc.enc (zeros 16) in
  xor (bc.enc (gcm_j0 h iv))
      (c_ghash h (pad16 header ^ pad16 cipher ^ be64s (8 * String.length header) ^ be64s (8 * String.length cipher)))
let gcm_crypt key iv s =
  let bc = aes key in
  let j0 = gcm_j0 (bc.enc (zeros 16)) iv in
  let l = String.length s in
  take (ctr 4 bc (ctr_block j0 4 1) (pad16 s)) l
let gcm_encrypt key iv header p = let c = gcm_crypt key iv p in (c, gcm_tag key iv header c)

let z_of_le s = Z.of_bits s
let le_of_z n z = let s = Z.to_bits z in
  if String.length s >= n then take s n else s ^ zeros (n - String.length s)
let p1305 = Z.sub (Z.shift_left Z.one 130) (Z.of_int 5)
let poly_clamp = Z.of_string "0x0ffffffc0ffffffc0ffffffc0fffffff"
let poly1305_from key acc0 msg =
  let r = Z.logand (z_of_le (take key 16)) poly_clamp and s = z_of_le (sub key 16 16) in
  let acc = ref acc0 in
  let l = String.length msg in
  let i = ref 0 in
  while !i < l do
    let n = min 16 (l - !i) in
    let b = z_of_le (sub msg !i n ^ "\001") in
    acc := Z.rem (Z.mul (Z.add !acc b) r) p1305; i := !i + n
  done;
  le_of_z 16 (Z.logand (Z.add !acc s) (Z.pred (Z.shift_left Z.one 128)))
let poly1305 key msg = poly1305_from key Z.zero msg
let chapoly_key key iv = take (c_chacha key iv 0L 1) 32
let chapoly_tag key iv header cipher =
  poly1305 (chapoly_key key iv)
    (pad16 header ^ pad16 cipher ^ le64s (String.length header) ^ le64s (String.length cipher))
let chapoly_crypt key iv s =
  xor s (take (c_chacha key iv 1L ((String.length s + 63) / 64)) (String.length s))
let chapoly_encrypt key iv header p =
  let c = chapoly_crypt key iv p in (c, chapoly_tag key iv header c)

(* ---- encodings ---- *)
let b64tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
let b64 ~pad s =
  let b = Buffer.create 80 in
  let l = String.length s in
  let bit i = if i >= 8 * l then 0 else (Char.code s.[i / 8] lsr (7 - i mod 8)) land 1 in
  let i = ref 0 in
  while !i < 8 * l do
    let v = ref 0 in
    for k = 0 to 5 do v := 2 * !v + bit (!i + k) done;
    Buffer.add_char b b64tab.[!v]; i := !i + 6
  done;
  if pad then while Buffer.length b mod 4 <> 0 do Buffer.add_char b '=' done;
  Buffer.contents b
