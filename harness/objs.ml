(* Catalogue of the objects of the library, each with its model: a pure
   function from the whole input to the expected outcome. *)
open Cryptokit

let err e = "exn:unexpected Cryptokit.Error " ^ e
let ok s = "ok:" ^ s
let key n = E.pat ("key" ^ string_of_int n) n
let ivs n = E.pat ("iv" ^ string_of_int n) n

(* ------------------------------------------------------------------ *)
(* Block ciphers *)
type bk = {
  bn : string; bbs : int; bkey : string;
  cipher : ?mode:Cipher.chaining_mode -> ?pad:Padding.scheme -> ?iv:string -> string -> Cipher.direction -> transform;
  benc : string -> Block.block_cipher; bdec : string -> Block.block_cipher;
  rbc : string -> Ref.bc }
let bks = [
  { bn = "aes128"; bbs = 16; bkey = key 16; cipher = Cipher.aes; benc = new Block.aes_encrypt; bdec = new Block.aes_decrypt; rbc = Ref.aes };
  { bn = "aes192"; bbs = 16; bkey = key 24; cipher = Cipher.aes; benc = new Block.aes_encrypt; bdec = new Block.aes_decrypt; rbc = Ref.aes };
  { bn = "aes256"; bbs = 16; bkey = key 32; cipher = Cipher.aes; benc = new Block.aes_encrypt; bdec = new Block.aes_decrypt; rbc = Ref.aes };
  { bn = "des"; bbs = 8; bkey = key 8; cipher = Cipher.des; benc = new Block.des_encrypt; bdec = new Block.des_decrypt; rbc = Ref.des };
  { bn = "3des16"; bbs = 8; bkey = key 16; cipher = Cipher.triple_des; benc = new Block.triple_des_encrypt; bdec = new Block.triple_des_decrypt; rbc = Ref.tdes };
  { bn = "3des24"; bbs = 8; bkey = key 24; cipher = Cipher.triple_des; benc = new Block.triple_des_encrypt; bdec = new Block.triple_des_decrypt; rbc = Ref.tdes };
  { bn = "blowfish"; bbs = 8; bkey = key 16; cipher = Cipher.blowfish; benc = new Block.blowfish_encrypt; bdec = new Block.blowfish_decrypt; rbc = Ref.blowfish };
]
let memo_bc : (string, Ref.bc) Hashtbl.t = Hashtbl.create 16
let rbc bk k =
  let id = bk.bn ^ k in
  match Hashtbl.find_opt memo_bc id with
  | Some b -> b
  | None -> let b = bk.rbc k in Hashtbl.add memo_bc id b; b

(* Toy block cipher of any block size, for the generic machinery:
   y_i = S(x_i + y_{i-1} + k_i); decryption inverts it.  Works in place. *)
let toy_k i = (i * 37 + 11) land 255
let toy_enc_s s =
  let n = String.length s in
  let b = Bytes.create n in
  let prev = ref 0x5a in
  for i = 0 to n - 1 do
    let y = (((Char.code s.[i] + !prev + toy_k i) land 255) * 167 + 13) land 255 in
    prev := y; Bytes.set b i (Char.chr y)
  done; Bytes.unsafe_to_string b
let inv167 = let rec f i = if (i * 167) land 255 = 1 then i else f (i + 1) in f 1
let toy_dec_s s =
  let n = String.length s in
  let b = Bytes.create n in
  let prev = ref 0x5a in
  for i = 0 to n - 1 do
    let y = Char.code s.[i] in
    let x = (((y - 13) * inv167) - !prev - toy_k i) land 255 in
    prev := y; Bytes.set b i (Char.chr x)
  done; Bytes.unsafe_to_string b
let toy_bc bs = { Ref.bs; enc = toy_enc_s; dec = toy_dec_s }
class toy bs f = object
  val mutable wiped = 0
  method blocksize = bs
  method transform src so dst d =
    let s = Bytes.sub_string src so bs in
    Bytes.blit_string (f s) 0 dst d bs
  method wipe = wiped <- wiped + 1
  method wiped = wiped
end
let toy_enc bs = (new toy bs toy_enc_s :> Block.block_cipher)
let toy_dec bs = (new toy bs toy_dec_s :> Block.block_cipher)

(* ------------------------------------------------------------------ *)
(* Modes *)
type mode = Cipher.chaining_mode
let mode_name = function
  | Cipher.ECB -> "ECB" | CBC -> "CBC" | CFB n -> Printf.sprintf "CFB%d" n
  | OFB n -> Printf.sprintf "OFB%d" n | CTR -> "CTR" | CTR_N n -> Printf.sprintf "CTR_N%d" n
let all_modes bs =
  let r = List.init bs (fun i -> i + 1) in
  [Cipher.ECB; CBC; CTR] @ List.map (fun n -> Cipher.CFB n) r @ List.map (fun n -> Cipher.OFB n) r
  @ List.map (fun n -> Cipher.CTR_N n) r
let some_modes bs = [Cipher.ECB; CBC; CTR; CFB 1; CFB (bs/2 + 1); CFB bs; OFB 1; OFB (bs - 1); OFB bs; CTR_N 1; CTR_N 4; CTR_N bs]
let mode_unit bs = function Cipher.CFB n | OFB n -> n | _ -> bs
let mode_model bc iv dir s = function
  | Cipher.ECB -> Ref.ecb (dir = Cipher.Encrypt) bc s
  | CBC -> if dir = Cipher.Encrypt then Ref.cbc_enc bc iv s else Ref.cbc_dec bc iv s
  | CFB n -> Ref.cfb (dir = Cipher.Encrypt) n bc iv s
  | OFB n -> Ref.ofb n bc iv s
  | CTR -> Ref.ctr bc.Ref.bs bc iv s
  | CTR_N n -> Ref.ctr n bc iv s
type pad = No | Len | P8000
let pad_name = function No -> "nopad" | Len -> "length" | P8000 -> "8000"
let pad_arg = function No -> None | Len -> Some Padding.length | P8000 -> Some Padding._8000
(* strip the padding of the last block: Some n = n bytes kept in it *)
let strip_model pad blk =
  let n = String.length blk in
  match pad with
  | No -> Some n
  | Len ->
    let k = Char.code blk.[n - 1] in
    if k >= 1 && k <= n && String.sub blk (n - k) k = String.make k (Char.chr k) then Some (n - k) else None
  | P8000 ->
    let rec go i = if i < 0 then None else match blk.[i] with '\000' -> go (i - 1) | '\x80' -> Some i | _ -> None in
    go (n - 1)
let cipher_model bc mode iv pad dir s =
  let u = mode_unit bc.Ref.bs mode in
  match pad, dir with
  | No, _ -> if String.length s mod u <> 0 then err "Wrong_data_length" else ok (mode_model bc iv dir s mode)
  | Len, Cipher.Encrypt -> ok (mode_model bc iv dir (Ref.pad_length u s) mode)
  | P8000, Cipher.Encrypt -> ok (mode_model bc iv dir (Ref.pad_8000 u s) mode)
  | _, Cipher.Decrypt ->
    let l = String.length s in
    if l = 0 || l mod u <> 0 then err "Wrong_data_length" else begin
      let p = mode_model bc iv dir s mode in
      match strip_model pad (String.sub p (l - u) u) with
      | None -> err "Bad_padding"
      | Some k -> ok (String.sub p 0 (l - u + k))
    end

(* ------------------------------------------------------------------ *)
(* Transforms *)
type t = {
  name : string;
  mk : unit -> transform;
  model : string -> string;           (* outcome of transform_string *)
  gen : string -> int -> string;      (* gen label n: an input of length n *)
  iu : int;                           (* valid lengths: multiples of iu *)
  minl : int;
  flush : int -> bool;                (* is flush permitted after n bytes? *)
  flen : int -> int;                  (* output length after a flush at n bytes *)
}
let gen_any label n = E.pat label n
let dirname = function Cipher.Encrypt -> "enc" | Cipher.Decrypt -> "dec"

let of_cipher bk mode pad dir =
  let iv = if mode = Cipher.ECB then "" else ivs bk.bbs in
  let riv = if mode = Cipher.ECB then Ref.zeros bk.bbs else iv in
  let bc () = rbc bk bk.bkey in
  let u = mode_unit bk.bbs mode in
  let mk () =
    if mode = Cipher.ECB then bk.cipher ~mode ?pad:(pad_arg pad) bk.bkey dir
    else bk.cipher ~mode ?pad:(pad_arg pad) ~iv bk.bkey dir in
  let padded_dec = pad <> No && dir = Cipher.Decrypt in
  { name = Printf.sprintf "%s/%s/%s/%s" bk.bn (mode_name mode) (pad_name pad) (dirname dir);
    mk; model = (fun s -> cipher_model (bc ()) mode riv pad dir s);
    gen = (fun label n ->
      if not padded_dec then E.pat label n
      else begin
        (* a valid ciphertext of n bytes when possible *)
        if n = 0 || n mod u <> 0 then E.pat label n
        else
          let keep = n - 1 - (Hashtbl.hash label mod u) in
          match cipher_model (bc ()) mode riv pad Cipher.Encrypt (E.pat label (max 0 keep)) with
          | s -> let s = String.sub s 3 (String.length s - 3) in
            if String.length s = n then s else E.pat label n
      end);
    iu = (if pad <> No && dir = Cipher.Encrypt then 1 else u);
    minl = (if padded_dec then u else 0);
    flush = (fun n -> n mod u = 0 && not padded_dec);
    flen = (fun n -> n) }

let ks_model ks s = ok (Ref.xor s (ks (String.length s)))
let stream_t name mk ks =
  { name; mk; model = ks_model ks; gen = gen_any; iu = 1; minl = 0; flush = (fun _ -> true); flen = (fun n -> n) }
let streams () =
  let k16 = key 16 and k32 = key 32 in
  List.concat_map (fun dir -> [
    stream_t ("chacha20/32/8/" ^ dirname dir) (fun () -> Cipher.chacha20 ~iv:(ivs 8) k32 dir) (Ref.chacha_keystream ~iv:(ivs 8) k32);
    stream_t ("chacha20/16/none/" ^ dirname dir) (fun () -> Cipher.chacha20 k16 dir) (Ref.chacha_keystream k16);
    stream_t ("chacha20/32/12/ctr5/" ^ dirname dir) (fun () -> Cipher.chacha20 ~iv:(ivs 12) ~ctr:5L k32 dir) (Ref.chacha_keystream ~iv:(ivs 12) ~ctr:5L k32);
    stream_t ("arcfour/16/" ^ dirname dir) (fun () -> Cipher.arcfour k16 dir) (Ref.rc4_keystream k16);
  ]) [Cipher.Encrypt; Cipher.Decrypt]

(* --- codecs --- *)
let b64_multiline ~width s =
  (* newline after each complete line of [width] characters made of full groups; the library's rule:
     a final newline when something was output on the current line *)
  let full = String.length s / 3 * 3 in
  let b = Buffer.create 100 in
  let col = ref 0 in
  let i = ref 0 in
  while !i < full do
    Buffer.add_string b (Ref.b64 ~pad:false (String.sub s !i 3));
    col := !col + 4; i := !i + 3;
    if !col >= width then (Buffer.add_char b '\n'; col := 0)
  done;
  Buffer.add_string b (Ref.b64 ~pad:true (String.sub s full (String.length s - full)));
  b, !col

let is_blank c = c = ' ' || c = '\t' || c = '\n' || c = '\r'
let b64_val c = String.index_opt Ref.b64tab c
(* model of the Base64 decoder: digits and blanks, '=' ends the data *)
let b64_decode_model s =
  let exception Bad in
  let b = Buffer.create 100 in
  let acc = ref 0 and n = ref 0 and fin = ref false in
  try
    String.iter (fun c ->
      if c = '=' then fin := true
      else if is_blank c then ()
      else match b64_val c with
        | None -> raise Bad
        | Some v ->
          if !fin then raise Bad;
          acc := (!acc lsl 6) lor v; incr n;
          if !n = 4 then begin
            Buffer.add_char b (Char.chr (!acc lsr 16)); Buffer.add_char b (Char.chr ((!acc lsr 8) land 255));
            Buffer.add_char b (Char.chr (!acc land 255)); acc := 0; n := 0
          end) s;
    (match !n with
     | 1 -> raise Bad
     | 2 -> Buffer.add_char b (Char.chr (!acc lsr 4))
     | 3 -> Buffer.add_char b (Char.chr (!acc lsr 10)); Buffer.add_char b (Char.chr ((!acc lsr 2) land 255))
     | _ -> ());
    ok (Buffer.contents b)
  with Bad -> err "Bad_encoding"
let hex_decode_model s =
  let exception Bad in
  let b = Buffer.create 100 in
  let acc = ref (-1) in
  try
    String.iter (fun c ->
      if not (is_blank c) then begin
        let v = match c with '0'..'9' -> Char.code c - 48 | 'a'..'f' -> Char.code c - 87 | 'A'..'F' -> Char.code c - 55 | _ -> raise Bad in
        if !acc < 0 then acc := v else (Buffer.add_char b (Char.chr (!acc * 16 + v)); acc := -1)
      end) s;
    if !acc >= 0 then raise Bad;
    ok (Buffer.contents b)
  with Bad -> err "Bad_encoding"

let codec ?(flen = fun n -> n) name mk model gen iu flush =
  { name; mk; model; gen; iu; minl = 0; flush; flen }
let never _ = false and always _ = true
let strip_nl s = String.concat "" (String.split_on_char '\n' s)
(* lines of at most 76 characters, same characters *)
let multiline_ok s txt =
  strip_nl txt = Ref.b64 ~pad:true s
  && List.for_all (fun l -> String.length l <= 76) (String.split_on_char '\n' txt)
let codecs () = [
  codec "b64/compact" (fun () -> Base64.encode_compact ()) (fun s -> ok (Ref.b64 ~pad:false s)) gen_any 1 never;
  codec "b64/pad" (fun () -> Base64.encode_compact_pad ()) (fun s -> ok (Ref.b64 ~pad:true s)) gen_any 1 never;
  codec "b64/multiline" (fun () -> Base64.encode_multiline ())
    (fun s ->
      (* layout: learned from one single call, after checking that it is a legal one *)
      let t = Base64.encode_multiline () in
      t#put_string s; t#finish;
      let o = t#get_string in
      if not (multiline_ok s o) then E.fail "multi-line encoding of %s is not the RFC 4648 text in lines of at most 76: %S" (E.show s) o;
      ok o) gen_any 1 never;
  codec "b64/decode" (fun () -> Base64.decode ()) b64_decode_model
    (fun l n ->
      (* n characters, with blanks and final padding *)
      let raw = Ref.b64 ~pad:false (E.pat l n) in
      String.init n (fun i -> if i mod 11 = 7 then ' ' else if i mod 29 = 13 then '\n' else raw.[i])) 1 never;
  codec ~flen:(fun n -> 2 * n) "hex/encode" (fun () -> Hexa.encode ()) (fun s -> ok (Ref.hex s)) gen_any 1 always;
  codec ~flen:(fun n -> n / 2) "hex/decode" (fun () -> Hexa.decode ()) hex_decode_model
    (fun l n -> String.sub (Ref.hex (E.pat l (n / 2 + 1))) 0 n) 2 (fun n -> n land 1 = 0);
]
let compositions () =
  let aes = List.hd bks in
  let bc () = rbc aes aes.bkey in
  [ codec ~flen:(fun n -> 2 * n) "compose(cbc+pad,hex)"
      (fun () -> compose (Cipher.aes ~pad:Padding.length ~iv:(ivs 16) aes.bkey Cipher.Encrypt) (Hexa.encode ()))
      (fun s -> ok (Ref.hex (Ref.cbc_enc (bc ()) (ivs 16) (Ref.pad_length 16 s)))) gen_any 1 (fun n -> n mod 16 = 0);
    codec ~flen:(fun n -> n / 2) "compose(hexdec,cbcdec)"
      (fun () -> compose (Hexa.decode ()) (Cipher.aes ~iv:(ivs 16) aes.bkey Cipher.Decrypt))
      (fun s -> match hex_decode_model s with
         | h when String.sub h 0 3 = "ok:" ->
           cipher_model (bc ()) Cipher.CBC (ivs 16) No Cipher.Decrypt (String.sub h 3 (String.length h - 3))
         | e -> e)
      (fun l n -> String.sub (Ref.hex (E.pat l (n / 2 + 1))) 0 n) 32 (fun n -> n mod 32 = 0);
    codec "compose(compose(chacha,hex),b64pad)"
      (fun () -> compose (compose (Cipher.chacha20 (key 32) Cipher.Encrypt) (Hexa.encode ())) (Base64.encode_compact_pad ()))
      (fun s -> ok (Ref.b64 ~pad:true (Ref.hex (Ref.xor s (Ref.chacha_keystream (key 32) (String.length s)))))) gen_any 1 never;
    codec "compose(ctr,ecb8)"
      (fun () -> compose (Cipher.aes ~mode:Cipher.CTR ~iv:(ivs 16) aes.bkey Cipher.Encrypt)
                         (Cipher.des ~mode:Cipher.ECB (key 8) Cipher.Encrypt))
      (fun s -> if String.length s mod 16 <> 0 then err "Wrong_data_length"
        else ok (Ref.ecb true (Ref.des (key 8)) (Ref.ctr 16 (bc ()) (ivs 16) s))) gen_any 16 (fun n -> n mod 16 = 0);
  ]
let toys () =
  List.concat_map (fun bs ->
    let bc = toy_bc bs in
    let name s = Printf.sprintf "toy%d/%s" bs s in
    let iv = ivs bs in
    [ { name = name "cipher"; mk = (fun () -> new Block.cipher (toy_enc bs)); model = (fun s -> cipher_model bc Cipher.ECB iv No Cipher.Encrypt s);
        gen = gen_any; iu = bs; minl = 0; flush = (fun n -> n mod bs = 0); flen = (fun n -> n) };
      { name = name "padenc"; mk = (fun () -> new Block.cipher_padded_encrypt Padding._8000 (new Block.cbc_encrypt ~iv (toy_enc bs)));
        model = (fun s -> cipher_model bc Cipher.CBC iv P8000 Cipher.Encrypt s);
        gen = gen_any; iu = 1; minl = 0; flush = (fun n -> n mod bs = 0); flen = (fun n -> n) };
      { name = name "paddec"; mk = (fun () -> new Block.cipher_padded_decrypt Padding.length (new Block.cbc_decrypt ~iv (toy_dec bs)));
        model = (fun s -> cipher_model bc Cipher.CBC iv Len Cipher.Decrypt s);
        gen = (fun label n -> if n = 0 || n mod bs <> 0 then E.pat label n
                else Ref.cbc_enc bc iv (Ref.pad_length bs (E.pat label (n - 1 - Hashtbl.hash label mod bs))));
        iu = bs; minl = bs; flush = never; flen = (fun n -> n) } ]) [1; 2; 5; 16; 100; 200]

let ciphers_some () =
  List.concat_map (fun bk ->
    List.concat_map (fun m ->
      List.concat_map (fun pad ->
        List.map (fun dir -> of_cipher bk m pad dir) [Cipher.Encrypt; Cipher.Decrypt])
        [No; Len; P8000]) (if bk.bn = "aes128" || bk.bn = "des" then some_modes bk.bbs else [Cipher.CBC; CTR]))
    bks

let transforms () = ciphers_some () @ streams () @ codecs () @ compositions () @ toys ()

(* ------------------------------------------------------------------ *)
(* Hashes and MACs *)
type h = { hn : string; hmk : unit -> hash; hmodel : string -> string; hsz : int; hblk : int; iuh : int }
let hk hn hmk id = { hn; hmk; hmodel = (fun s -> Ref.hash id s); hsz = id.Ref.out; hblk = id.Ref.block; iuh = 1 }
let hashes () = [
  hk "md5" Hash.md5 Ref.md5; hk "sha1" Hash.sha1 Ref.sha1; hk "sha224" Hash.sha224 Ref.sha224;
  hk "sha256" Hash.sha256 Ref.sha256; hk "sha384" Hash.sha384 Ref.sha384; hk "sha512" Hash.sha512 Ref.sha512;
  hk "ripemd160" Hash.ripemd160 Ref.ripemd160;
  hk "sha2-224" (fun () -> Hash.sha2 224) Ref.sha224; hk "sha2-256" (fun () -> Hash.sha2 256) Ref.sha256;
  hk "sha2-384" (fun () -> Hash.sha2 384) Ref.sha384; hk "sha2-512" (fun () -> Hash.sha2 512) Ref.sha512 ]
  @ List.concat_map (fun b -> [hk (Printf.sprintf "sha3-%d" b) (fun () -> Hash.sha3 b) (Ref.sha3 b);
                               hk (Printf.sprintf "keccak-%d" b) (fun () -> Hash.keccak b) (Ref.keccak b)]) [224; 256; 384; 512]
  @ [ hk "blake2b512" Hash.blake2b512 (Ref.blake2b 512); hk "blake2s256" Hash.blake2s256 (Ref.blake2s 256);
      hk "blake2b-160" (fun () -> Hash.blake2b 160) (Ref.blake2b 160); hk "blake2s-8" (fun () -> Hash.blake2s 8) (Ref.blake2s 8);
      hk "blake3_256" Hash.blake3_256 (Ref.blake3 256); hk "blake3-1032" (fun () -> Hash.blake3 1032) (Ref.blake3 1032) ]
let mk_mac hn hmk hmodel hsz hblk iuh = { hn; hmk; hmodel; hsz; hblk; iuh }
let pad_model pad u s = match pad with No -> s | Len -> Ref.pad_length u s | P8000 -> Ref.pad_8000 u s
let hmacs = [
  "hmac_sha1", MAC.hmac_sha1, Ref.sha1; "hmac_sha256", MAC.hmac_sha256, Ref.sha256;
  "hmac_sha384", MAC.hmac_sha384, Ref.sha384; "hmac_sha512", MAC.hmac_sha512, Ref.sha512;
  "hmac_ripemd160", MAC.hmac_ripemd160, Ref.ripemd160; "hmac_md5", MAC.hmac_md5, Ref.md5 ]
let cbcmacs = [
  "mac_aes", (fun ?iv ?pad k -> MAC.aes ?iv ?pad k), Ref.aes, [16; 24; 32];
  "mac_des", (fun ?iv ?pad k -> MAC.des ?iv ?pad k), Ref.des, [8];
  "mac_3des", (fun ?iv ?pad k -> MAC.triple_des ?iv ?pad k), Ref.tdes, [16; 24] ]
(* CBC-MAC under the first key, then decrypted with the second and encrypted with the third *)
let dftd iv k s =
  let k1 = String.sub k 0 8 and k2 = String.sub k 8 8 in
  let k3 = if String.length k = 24 then String.sub k 16 8 else k1 in
  (Ref.des k3).Ref.enc ((Ref.des k2).Ref.dec (Ref.cbc_mac (Ref.des k1) iv s))
let macs () =
  List.concat_map (fun (n, f, id) ->
    List.map (fun kl -> mk_mac (Printf.sprintf "%s/k%d" n kl) (fun () -> f (key kl)) (Ref.hmac id (key kl)) id.Ref.out id.Ref.block 1)
      [0; 20; id.Ref.block + 7]) hmacs
  @ List.concat_map (fun (n, f, rbc, kls) ->
    List.concat_map (fun kl ->
      let bc = rbc (key kl) in
      let u = bc.Ref.bs in
      List.map (fun pad -> mk_mac (Printf.sprintf "%s/k%d/%s" n kl (pad_name pad)) (fun () -> f ?iv:(Some (ivs u)) ?pad:(pad_arg pad) (key kl))
        (fun s -> Ref.cbc_mac bc (ivs u) (pad_model pad u s)) u u (if pad = No then u else 1)) [No; Len; P8000]) kls) cbcmacs
  @ List.concat_map (fun kl -> List.map (fun pad ->
      mk_mac (Printf.sprintf "mac_des_final/k%d/%s" kl (pad_name pad))
        (fun () -> MAC.des_final_triple_des ?pad:(pad_arg pad) (key kl))
        (fun s -> dftd (Ref.zeros 8) (key kl) (pad_model pad 8 s)) 8 8 (if pad = No then 8 else 1)) [No; P8000]) [16; 24]
  @ List.map (fun kl -> mk_mac (Printf.sprintf "aes_cmac/k%d" kl) (fun () -> MAC.aes_cmac (key kl)) (Ref.cmac (Ref.aes (key kl)) (Ref.zeros 16)) 16 16 1) [16; 24; 32]
  @ [ mk_mac "mac_blake2b512/k33" (fun () -> MAC.blake2b512 (key 33)) (fun s -> Ref.hash ~key:(key 33) (Ref.blake2b 512) s) 64 128 1;
      mk_mac "mac_blake2b-200/k64" (fun () -> MAC.blake2b 200 (key 64)) (fun s -> Ref.hash ~key:(key 64) (Ref.blake2b 200) s) 25 128 1;
      mk_mac "mac_blake2s256/k32" (fun () -> MAC.blake2s256 (key 32)) (fun s -> Ref.hash ~key:(key 32) (Ref.blake2s 256) s) 32 64 1;
      mk_mac "mac_blake2s-128/k5" (fun () -> MAC.blake2s 128 (key 5)) (fun s -> Ref.hash ~key:(key 5) (Ref.blake2s 128) s) 16 64 1;
      mk_mac "mac_blake3_256" (fun () -> MAC.blake3_256 (key 32)) (fun s -> Ref.hash ~key:(key 32) (Ref.blake3 256) s) 32 64 1;
      mk_mac "mac_blake3-800" (fun () -> MAC.blake3 800 (key 32)) (fun s -> Ref.hash ~key:(key 32) (Ref.blake3 800) s) 100 64 1;
      mk_mac "siphash" (fun () -> MAC.siphash (key 16)) (fun s -> Ref.hash ~key:(key 16) (Ref.sip 8) s) 8 8 1;
      mk_mac "siphash128" (fun () -> MAC.siphash128 (key 16)) (fun s -> Ref.hash ~key:(key 16) (Ref.sip 16) s) 16 8 1 ]
let toy_macs () = List.map (fun bs ->
    mk_mac (Printf.sprintf "toymac%d" bs) (fun () -> new Block.mac ~iv:(ivs bs) ~pad:Padding._8000 (toy_enc bs))
      (fun s -> Ref.cbc_mac (toy_bc bs) (ivs bs) (Ref.pad_8000 bs s)) bs bs 1) [1; 3; 7; 40]
let all_hashes () = hashes () @ macs () @ toy_macs ()

(* ------------------------------------------------------------------ *)
(* Authenticated transforms.  amodel s = (text, tag) *)
type a = {
  an : string; amk : unit -> authenticated_transform;
  amodel : string -> (string * string, string) result; aiu : int; atag : int; agen : string -> int -> string }
let aead_kinds = [
  "gcm128/iv12", AEAD.aes_gcm, 16, 12, Ref.gcm_crypt, Ref.gcm_tag;
  "gcm192/iv16", AEAD.aes_gcm, 24, 16, Ref.gcm_crypt, Ref.gcm_tag;
  "gcm256/iv7", AEAD.aes_gcm, 32, 7, Ref.gcm_crypt, Ref.gcm_tag;
  "chapoly32/iv12", AEAD.chacha20_poly1305, 32, 12, Ref.chapoly_crypt, Ref.chapoly_tag;
  "chapoly16/iv8", AEAD.chacha20_poly1305, 16, 8, Ref.chapoly_crypt, Ref.chapoly_tag ]
let aeads () =
  List.concat_map (fun (n, f, kl, il, crypt, tag) ->
    List.concat_map (fun hl ->
      let header = E.pat "hdr" hl in
      List.map (fun dir ->
        { an = Printf.sprintf "%s/h%d/%s" n hl (match dir with AEAD.Encrypt -> "enc" | AEAD.Decrypt -> "dec");
          amk = (fun () -> f ?header:(Some header) ~iv:(ivs il) (key kl) dir);
          amodel = (fun s ->
            let o = crypt (key kl) (ivs il) s in
            let c = if dir = AEAD.Encrypt then o else s in
            Ok (o, tag (key kl) (ivs il) header c));
          aiu = 1; atag = 16; agen = gen_any }) [AEAD.Encrypt; AEAD.Decrypt]) [0; 13]) aead_kinds
let res_of_outcome o f =
  if String.length o >= 3 && String.sub o 0 3 = "ok:" then Ok (f (String.sub o 3 (String.length o - 3))) else Error o
let auth_combos () =
  let ts = List.filter (fun t -> List.mem t.name
      ["aes128/CBC/length/enc"; "aes128/CBC/length/dec"; "aes128/CTR/nopad/enc"; "chacha20/32/8/enc"; "hex/encode"; "hex/decode"; "toy5/padenc"])
      (transforms ()) in
  let hs = List.filter (fun h -> List.mem h.hn ["sha256"; "hmac_sha256/k20"; "siphash"; "mac_aes/k16/8000"; "blake3_256"]) (all_hashes ()) in
  List.concat_map (fun t -> List.concat_map (fun h ->
    [ { an = Printf.sprintf "then_hash(%s,%s)" t.name h.hn; amk = (fun () -> transform_then_hash (t.mk ()) (h.hmk ()));
        amodel = (fun s -> res_of_outcome (t.model s) (fun o -> (o, h.hmodel o))); aiu = t.iu; atag = h.hsz; agen = t.gen };
      { an = Printf.sprintf "and_hash(%s,%s)" t.name h.hn; amk = (fun () -> transform_and_hash (t.mk ()) (h.hmk ()));
        amodel = (fun s -> res_of_outcome (t.model s) (fun o -> (o, h.hmodel s))); aiu = t.iu; atag = h.hsz; agen = t.gen } ]) hs) ts
let auths () = aeads () @ auth_combos ()
