(* Structured data: keys, blocks and messages made of repeated, equal, null and
   all-ones parts (C05, C06, C07, C10, C13); many objects at a time (C26) *)
open E
open Objs
open Cryptokit
let uniq = ()
let range = P_aead.range

(* all the strings of n parts of w bytes, taken in the given alphabet *)
let words alpha w n f =
  let a = Array.of_list (List.map (fun x -> match x with `Zero -> Ref.zeros w | `Ones -> String.make w '\xff' | `Pat l -> pat l w) alpha) in
  let k = Array.length a in
  let tot = int_of_float (float k ** float n) in
  for x = 0 to tot - 1 do
    let b = Buffer.create (w * n) in
    let y = ref x in
    for _ = 1 to n do Buffer.add_string b a.(!y mod k); y := !y / k done;
    f x (Buffer.contents b)
  done
let words_list alpha w n = let l = ref [] in words alpha w n (fun _ s -> l := s :: !l); List.rev !l

let () = section "c07_structured" (fun () ->
  List.iter (fun bk ->
    let open P_cipher in
    let bf = String.length bk.bn >= 8 && String.sub bk.bn 0 8 = "blowfish" in
    let kl = String.length bk.bkey and bs = bk.bbs in
    let blocks = words_list [`Zero; `Ones; `Pat "sa"; `Pat "sb"] 4 (bs / 4) in
    let some = [pat "sa" 4 ^ pat "sa" 4; pat "sa" 4 ^ pat "sb" 4] in
    let some = List.map (fun s -> if bs = 16 then s ^ s else s) some in
    (* keys of parts of 4 bytes for the single ciphers, 8 bytes for the triple ones *)
    let w = if kl > 16 || bs = 8 && not bf && kl > 8 then 8 else 4 in
    let keys = words_list (if bf then [`Zero; `Ones; `Pat "sa"] else [`Zero; `Ones; `Pat "sa"; `Pat "sb"]) w (kl / w) in
    let keys = if bf && quick () then List.filteri (fun i _ -> i mod 9 = 0) keys else keys in
    List.iteri (fun i k ->
      let k = if String.length k < kl then k ^ pat "sc" (kl - String.length k) else k in
      case (fun () -> Printf.sprintf "%s structured key %s" bk.bn (Ref.hex k)) (fun () ->
        st_s (bk.bn, "sk", i);
        (* the block may also be equal to a part of the key *)
        check_key bk k (some @ (if bf then [] else if quick () then [String.sub k 0 bs] else String.sub k 0 bs :: String.sub k (kl - bs) bs :: blocks)))) keys;
    case (fun () -> Printf.sprintf "%s structured blocks" bk.bn) (fun () ->
      List.iteri (fun i b -> st_s (bk.bn, "sb", i); if i land 15 = 0 then beat ();
        check_key bk bk.bkey [b]) (if bf && quick () then List.filteri (fun i _ -> i mod 4 = 0) blocks else blocks)))
    bks)

let () = section "c05_structured" (fun () ->
  List.iter (fun (n, mk, (id : Ref.hash_id)) ->
    let b = id.Ref.block in
    (* whole blocks *)
    for nb = 1 to pick 4 6 do
      case (fun () -> Printf.sprintf "%s: all messages of %d blocks among 3 or 4" n nb) (fun () ->
        words (if nb <= 4 then [`Zero; `Ones; `Pat "sa"; `Pat "sb"] else [`Zero; `Pat "sa"; `Pat "sb"]) b nb (fun x s ->
          st_s (n, nb, x);
          P_hash.chk_hash n mk id s; if x land 3 = 0 then P_hash.chk_hash n mk id (s ^ pat "sa" (x mod b))))
    done;
    (* one block made of parts *)
    List.iter (fun np ->
      if b mod np = 0 then
      case (fun () -> Printf.sprintf "%s: all blocks of %d parts among 3" n np) (fun () ->
        words [`Zero; `Ones; `Pat "sa"] (b / np) np (fun x s ->
          st_s (n, "p", np, x); if x land 255 = 0 then beat ();
          P_hash.chk_hash n mk id s))) (pick [2; 4; 8] [2; 4; 8; 9]);
    (* constant messages *)
    for v = 0 to 255 do
      case (fun () -> Printf.sprintf "%s: constant messages of bytes %d" n v) (fun () ->
        List.iter (fun l -> st_s (n, "c", v, l); P_hash.chk_hash n mk id (String.make l (Char.chr v)))
          (if quick () then [1; b - 9; b; 2 * b + 1] else range 1 (2 * b + 1)))
    done) P_hash.hid)

let () = section "c06_structured" (fun () ->
  let macs = [
    "siphash", 16, 8, (fun k () -> MAC.siphash k), Ref.sip 8;
    "siphash128", 16, 16, (fun k () -> MAC.siphash128 k), Ref.sip 16;
    "blake2s256", 32, 32, (fun k () -> MAC.blake2s256 k), Ref.blake2s 256;
    "blake2b512", 64, 64, (fun k () -> MAC.blake2b512 k), Ref.blake2b 512;
    "blake3_256", 32, 32, (fun k () -> MAC.blake3_256 k), Ref.blake3 256 ] in
  List.iter (fun (n, kl, sz, mk, (id : Ref.hash_id)) ->
    let msgs = List.concat_map (fun i -> words_list [`Zero; `Ones; `Pat "sa"; `Pat "sb"] (max 8 (id.Ref.block / 2)) i) [0; 1; 2; 3] in
    let np = 4 in
    List.iteri (fun i k ->
      case (fun () -> Printf.sprintf "%s structured key %s" n (Ref.hex k)) (fun () ->
        List.iteri (fun j s ->
          st_s (n, i, j);
          P_hash.chk_mac (fun () -> n) (mk k) sz (Ref.hash ~key:k id s) s;
          if j mod 3 = 0 then let s = s ^ pat "sa" (1 + j mod 7) in P_hash.chk_mac (fun () -> n) (mk k) sz (Ref.hash ~key:k id s) s) msgs))
      (words_list [`Zero; `Ones; `Pat "sa"; `Pat "sb"] (kl / np) np)) macs)

let () = section "c10_structured" (fun () ->
  let seqs = List.concat_map (fun i -> words_list [`Zero; `Ones; `Pat "sa"] 16 i) (pick [0; 1; 2; 3] [0; 1; 2; 3; 4]) in
  let short = List.concat_map (fun i -> words_list [`Zero; `Ones; `Pat "sa"] 16 i) [0; 1; 2] in
  List.iteri (fun ki (n, f, kl, il, crypt, tag) ->
    List.iteri (fun kx k ->
      List.iteri (fun ix iv ->
        List.iteri (fun hx h ->
          case (fun () -> Printf.sprintf "%s key #%d iv #%d structured header #%d" n kx ix hx) (fun () ->
            List.iteri (fun mx m ->
              st_s (ki, kx, ix, hx, mx);
              let h = if mx land 3 = 1 then h ^ pat "sa" (mx mod 16) else h in
              P_aead.check_aead (fun () -> Printf.sprintf "header %s text %s" (show h) (show m)) f crypt tag ~header:h ~iv k m;
              (* chosen ciphertext: the decryption side sees the structured blocks *)
              tr 1;
              let (p, t) = auth_transform_string_detached (f ?header:(Some h) ~iv k AEAD.Decrypt) m in
              eqf (fun () -> Printf.sprintf "plaintext for ciphertext %s" (show m)) (crypt k iv m) p;
              eqf (fun () -> Printf.sprintf "tag for header %s ciphertext %s" (show h) (show m)) (tag k iv h m) t)
              (if quick () && (kx > 0 || ix > 0) then short else seqs))) short)
        [pat "siv" il; Ref.zeros il; String.make il '\xff'])
      [pat "sk" kl; Ref.zeros kl; String.make kl '\xff']) P_aead.kinds)

let () = section "c13_structured" (fun () ->
  (* arcfour: periodic and constant keys *)
  for per = 1 to pick 20 256 do
    case (fun () -> Printf.sprintf "arcfour keys of period %d" per) (fun () ->
      let base = pat "sper" per in
      List.iter (fun kl ->
        if kl >= 1 then begin
          st2 per kl; trace (); tr 1;
          let k = String.init kl (fun i -> base.[i mod per]) in
          eqf (fun () -> Printf.sprintf "key length %d" kl) (Ref.rc4_keystream k 300) (transform_string (Cipher.arcfour k Cipher.Encrypt) (Ref.zeros 300))
        end) (if quick () then [1; 2; 3; 5; 8; 15; 16; 17; 31; 32; 33; 63; 64; 65; 127; 128; 129; 192; 255; 256] else range 1 256))
  done;
  for v = 0 to 255 do
    case (fun () -> Printf.sprintf "arcfour constant keys of bytes %d" v) (fun () ->
      List.iter (fun kl ->
        st3 v kl 0; trace (); tr 1;
        let k = String.make kl (Char.chr v) in
        eqf (fun () -> Printf.sprintf "key length %d" kl) (Ref.rc4_keystream k 300) (transform_string (Cipher.arcfour k Cipher.Encrypt) (Ref.zeros 300)))
        (pick [1; 5; 16; 256] [1; 2; 3; 5; 8; 16; 31; 64; 128; 255; 256]))
  done;
  List.iter (fun kl ->
    List.iteri (fun i k ->
      case (fun () -> Printf.sprintf "chacha20 structured key %s" (Ref.hex k)) (fun () ->
        List.iteri (fun j iv ->
          List.iter (fun ctr ->
            st_s (kl, i, j, ctr); trace (); tr 1;
            eqf (fun () -> Printf.sprintf "iv %s counter %Ld" (Ref.hex iv) ctr) (Ref.chacha_keystream ~iv ~ctr k 200)
              (transform_string (Cipher.chacha20 ~iv ~ctr k Cipher.Encrypt) (Ref.zeros 200))) [0L; 1L; 0x7fff_ffffL; 0xffff_fffdL])
          (words_list [`Zero; `Ones; `Pat "sa"] 4 2 @ words_list [`Zero; `Ones; `Pat "sa"] 4 3)))
      (words_list [`Zero; `Ones; `Pat "sa"; `Pat "sb"] (kl / 4) 4)) [16; 32])

(* many objects of the same kind alive at a time *)
let () = section "c26_many" (fun () ->
  let open P_inter in
  let nk = 4 and nd = 3 in
  let tab = Array.init nk (fun i -> Array.init nd (fun j -> Array.of_list (fams (Printf.sprintf "K%d" i) (Printf.sprintf "d%d" j)))) in
  let nf = Array.length tab.(0).(0) in
  for x = 0 to nf - 1 do
    let heavy = P_inter.blocking tab.(0).(0).(x) in
    List.iter (fun n ->
      List.iter (fun (oname, order) ->
        case (fun () -> Printf.sprintf "%d sessions of %s, %s" n tab.(0).(0).(x).sn oname) (fun () ->
          patience 60;
          let ss = Array.init n (fun i -> tab.(i mod nk).(i mod nd).(x)) in
          let ex = Array.map (fun s -> s.start ()) ss in
          let pos = Array.make n 0 in
          let len i = Array.length (fst ex.(i)) in
          let step i = if pos.(i) < len i then begin (fst ex.(i)).(pos.(i)) (); pos.(i) <- pos.(i) + 1; tr 1 end in
          order n len step;
          trace (); st_s (ss.(0).sn, n, oname);
          Array.iteri (fun i (_, o) -> P_inter.check (Printf.sprintf "(session %d of %d)" i n) ss.(i) (o ())) ex))
        [ "step by step", (fun n len step -> let m = ref 0 in for i = 0 to n - 1 do m := max !m (len i) done;
            for _ = 1 to !m do for i = 0 to n - 1 do step i done done);
          "step by step, backwards", (fun n len step -> let m = ref 0 in for i = 0 to n - 1 do m := max !m (len i) done;
            for _ = 1 to !m do for i = n - 1 downto 0 do step i done done);
          "created in order, then used one after the other, the last first", (fun n len step ->
            for i = 0 to n - 1 do step i done; for i = n - 1 downto 0 do for _ = 1 to len i do step i done done);
          "in a pipeline", (fun n len step -> for k = 0 to n + 8 do for i = max 0 (k - 8) to min k (n - 1) do step i done done) ])
      (if heavy then [5; 16] else pick [4; 5; 9; 17; 33; 66] [4; 5; 6; 7; 8; 9; 10; 12; 16; 17; 24; 32; 33; 64; 65; 100; 128; 129; 257])
  done)

(* Keys whose derived MAC key is extreme: the AES keys below give a GHASH key with a 32-bit word equal
   to 0 or to ffffffff, the Chacha20 keys give a Poly1305 key (r or s) with such a word. Found by search. *)
let le32 n = String.init 4 (fun i -> Char.chr ((n lsr (8 * i)) land 255))
let gcm_subkeys = List.map (fun (hi, i) -> le32 i ^ le32 0 ^ le32 hi ^ le32 0x56455249)
  [1, 0x20671146; 1, 0x2645b0c5; 1, 0x2f0f455a; 1, 0x48cb54b5; 1, 0x4c14c6ac; 2, 0x14dba4fa; 2, 0x348edd7d; 2, 0x75368e6c;
   3, 0xd8b78ee; 3, 0x4586ca34; 4, 0x3d94b52a; 4, 0x6bfb5bbc; 4, 0x6d0b46ee]
let poly_subkeys = List.map (fun i -> le32 i ^ le32 1 ^ Ref.zeros 24)
  [0xc2c8910; 0xd01d0a2; 0x1229cfba; 0xf07f318; 0x2a35aee6; 0x39ad5178; 0x2707fa; 0x25dd0eb; 0x413564e; 0x4fa34a9; 0x69a6d8a; 0xcef2abc;
   0x576702; 0x64c60ed; 0x77025f3; 0xd1f49ff; 0x101f6e69; 0x177858aa; 0x4075c98; 0x951a461; 0x1301976a; 0x28b2e2e; 0x3309220; 0x41f677e;
   0x32e3e9ce; 0x5c18e446; 0x4d3786e1; 0x10b1eff4; 0x48ffd239]
let () = section "c10_subkeys" (fun () ->
  let w32 s i = String.sub s (4 * i) 4 in
  let seqs = List.concat_map (fun i -> words_list [`Zero; `Ones; `Pat "sa"] 16 i) (pick [0; 1; 2; 3] [0; 1; 2; 3; 4; 5]) in
  let seqs = seqs @ List.map (fun n -> pat "sl" n) (range 1 (pick 70 300)) in
  let extreme n k sub =
    case (fun () -> Printf.sprintf "%s: the MAC key derived from %s has an extreme word" n (show k)) (fun () ->
      st2 0 0;
      if not (List.exists (fun i -> i * 4 + 4 <= String.length sub && List.mem (w32 sub i) [Ref.zeros 4; "\xff\xff\xff\xff"; "\xff\xff\xff\x0f"; "\xfc\xff\xff\x0f"]) (range 0 7))
      then fail "MAC key %s" (show sub)) in
  let run n f k iv crypt tag =
    List.iteri (fun hx h ->
      case (fun () -> Printf.sprintf "%s key %s header #%d" n (show k) hx) (fun () ->
        List.iteri (fun mx m ->
          st_s (n, k, hx, mx);
          P_aead.check_aead (fun () -> Printf.sprintf "text %s" (show m)) f crypt tag ~header:h ~iv k m;
          tr 1;
          let (p, t) = auth_transform_string_detached (f ?header:(Some h) ~iv k AEAD.Decrypt) m in
          eqf (fun () -> Printf.sprintf "plaintext for ciphertext %s" (show m)) (crypt k iv m) p;
          eqf (fun () -> Printf.sprintf "tag for ciphertext %s" (show m)) (tag k iv h m) t) seqs))
      ["" ; pat "sh" 20; Ref.zeros 16; String.make 16 '\xff'; pat "sh" 32] in
  List.iter (fun k ->
    extreme "gcm" k ((Ref.aes k).Ref.enc (Ref.zeros 16));
    run "gcm" AEAD.aes_gcm k (pat "siv" 12) Ref.gcm_crypt Ref.gcm_tag) gcm_subkeys;
  List.iter (fun k ->
    let iv = Ref.zeros 12 in
    let rs = Ref.chacha_keystream ~iv k 32 in
    let clamp = "\xff\xff\xff\x0f\xfc\xff\xff\x0f\xfc\xff\xff\x0f\xfc\xff\xff\x0f" in
    let rs = String.mapi (fun i c -> if i < 16 then Char.chr (Char.code c land Char.code clamp.[i]) else c) rs in
    extreme "chapoly" k rs;
    run "chapoly" AEAD.chacha20_poly1305 k iv Ref.chapoly_crypt Ref.chapoly_tag) poly_subkeys)

(* Nothing depends on where in memory the arguments lie: keys, nonces and data that differ but occupy the
   same memory one after the other (as happens whenever the GC reuses a block). *)
let () = section "c26_address" (fun () ->
  let h0 f k _ m = hash_string (f k) m in
  let bk_fns (bk : Objs.bk) kl = [
    bk.bn ^ "/ecb-enc", kl, 0, 2 * bk.bbs, (fun k _ m -> transform_string (bk.cipher ~mode:Cipher.ECB k Cipher.Encrypt) m), (fun k _ m -> Ref.ecb true (bk.rbc k) m);
    bk.bn ^ "/ecb-dec", kl, 0, 2 * bk.bbs, (fun k _ m -> transform_string (bk.cipher ~mode:Cipher.ECB k Cipher.Decrypt) m), (fun k _ m -> Ref.ecb false (bk.rbc k) m);
    bk.bn ^ "/cbc-enc", kl, bk.bbs, 2 * bk.bbs, (fun k iv m -> transform_string (bk.cipher ~mode:Cipher.CBC ~iv k Cipher.Encrypt) m), (fun k iv m -> Ref.cbc_enc (bk.rbc k) iv m);
    bk.bn ^ "/cbc-dec", kl, bk.bbs, 2 * bk.bbs, (fun k iv m -> transform_string (bk.cipher ~mode:Cipher.CBC ~iv k Cipher.Decrypt) m), (fun k iv m -> Ref.cbc_dec (bk.rbc k) iv m);
    bk.bn ^ "/ctr", kl, bk.bbs, 3 * bk.bbs, (fun k iv m -> transform_string (bk.cipher ~mode:Cipher.CTR ~iv k Cipher.Encrypt) m), (fun k iv m -> Ref.ctr bk.bbs (bk.rbc k) iv m) ] in
  let fns =
    List.concat_map (fun (bk : Objs.bk) -> bk_fns bk (String.length bk.bkey)) Objs.bks
    @ List.map (fun (n, il) -> Printf.sprintf "chacha%d/%d" n il, n, il, 100,
        (fun k iv m -> transform_string (Cipher.chacha20 ~iv k Cipher.Encrypt) m), (fun k iv m -> Ref.xor m (Ref.chacha_keystream ~iv k (String.length m))))
        [16, 8; 16, 12; 32, 8; 32, 12]
    @ List.map (fun n -> Printf.sprintf "arcfour%d" n, n, 0, 50,
        (fun k _ m -> transform_string (Cipher.arcfour k Cipher.Encrypt) m), (fun k _ m -> Ref.xor m (Ref.rc4_keystream k (String.length m)))) [5; 16; 256]
    @ List.map (fun (n, f, kl, il, crypt, tag) -> n, kl, il, 37,
        (fun k iv m -> let (c, t) = auth_transform_string_detached (f ?header:(Some m) ~iv k AEAD.Encrypt) m in c ^ t),
        (fun k iv m -> let c = crypt k iv m in c ^ tag k iv m c)) P_aead.kinds
    @ [ "hmac-md5", 16, 0, 70, h0 MAC.hmac_md5, (fun k _ m -> Ref.hmac Ref.md5 k m);
        "hmac-sha1", 70, 0, 70, h0 MAC.hmac_sha1, (fun k _ m -> Ref.hmac Ref.sha1 k m);
        "hmac-sha256", 32, 0, 70, h0 MAC.hmac_sha256, (fun k _ m -> Ref.hmac Ref.sha256 k m);
        "hmac-sha384", 48, 0, 70, h0 MAC.hmac_sha384, (fun k _ m -> Ref.hmac Ref.sha384 k m);
        "hmac-sha512", 64, 0, 70, h0 MAC.hmac_sha512, (fun k _ m -> Ref.hmac Ref.sha512 k m);
        "hmac-ripemd160", 20, 0, 70, h0 MAC.hmac_ripemd160, (fun k _ m -> Ref.hmac Ref.ripemd160 k m);
        "blake2b512", 64, 0, 200, h0 MAC.blake2b512, (fun k _ m -> Ref.hash ~key:k (Ref.blake2b 512) m);
        "blake2b384", 17, 0, 200, h0 (MAC.blake2b 384), (fun k _ m -> Ref.hash ~key:k (Ref.blake2b 384) m);
        "blake2s256", 32, 0, 100, h0 MAC.blake2s256, (fun k _ m -> Ref.hash ~key:k (Ref.blake2s 256) m);
        "blake2s128", 5, 0, 100, h0 (MAC.blake2s 128), (fun k _ m -> Ref.hash ~key:k (Ref.blake2s 128) m);
        "blake3", 32, 0, 1100, h0 MAC.blake3_256, (fun k _ m -> Ref.hash ~key:k (Ref.blake3 256) m);
        "siphash", 16, 0, 20, h0 MAC.siphash, (fun k _ m -> Ref.hash ~key:k (Ref.sip 8) m);
        "siphash128", 16, 0, 20, h0 MAC.siphash128, (fun k _ m -> Ref.hash ~key:k (Ref.sip 16) m);
        "aes-cmac", 16, 0, 33, h0 (MAC.aes_cmac ?iv:None), (fun k _ m -> Ref.cmac (Ref.aes k) (Ref.zeros 16) m);
        "des-mac", 8, 8, 24, (fun k iv m -> hash_string (MAC.des ~iv k) m), (fun k iv m -> Ref.cbc_mac (Ref.des k) iv m);
        "aes-mac", 16, 16, 32, (fun k iv m -> hash_string (MAC.aes ~iv k) m), (fun k iv m -> Ref.cbc_mac (Ref.aes k) iv m);
        "sha1", 0, 0, 70, (fun _ _ m -> hash_string (Hash.sha1 ()) m), (fun _ _ m -> Ref.hash Ref.sha1 m);
        "sha256", 0, 0, 70, (fun _ _ m -> hash_string (Hash.sha256 ()) m), (fun _ _ m -> Ref.hash Ref.sha256 m);
        "sha512", 0, 0, 140, (fun _ _ m -> hash_string (Hash.sha512 ()) m), (fun _ _ m -> Ref.hash Ref.sha512 m);
        "sha3", 0, 0, 140, (fun _ _ m -> hash_string (Hash.sha3 256) m), (fun _ _ m -> Ref.hash (Ref.sha3 256) m);
        "ripemd160", 0, 0, 70, (fun _ _ m -> hash_string (Hash.ripemd160 ()) m), (fun _ _ m -> Ref.hash Ref.ripemd160 m) ] in
  let vary l n = if n = 0 then [""] else
    let s = pat l n in
    let flip i v = String.mapi (fun j c -> if j = i then Char.chr (Char.code c lxor v) else c) s in
    s :: flip (n - 1) 0x80 :: (if quick () then [] else [flip 0 2; flip (n / 2) 16]) in
  let moves = range 0 (pick 0 1) in
  List.iter (fun (n, kl, il, ml, f, r) ->
    case (fun () -> n ^ ": all sequences of 3 calls with arguments in the same memory") (fun () ->
      patience 60;
      let args = List.concat_map (fun k -> List.concat_map (fun iv -> List.map (fun m -> (k, iv, m, lazy (r k iv m))) (vary "am" ml)) (vary "ai" il)) (vary "ak" kl) in
      let args = if quick () then args else (* one departure from the first at a time, and a few double ones *)
        List.filteri (fun i _ -> i mod 3 < 2) args in
      let args = if List.length args <= 12 then args else List.filteri (fun i _ -> i mod (List.length args / 12 + 1) = 0 || i < 4) args in
      let kb = Bytes.create kl and ib = Bytes.create il and mb = Bytes.create ml in
      Gc.full_major ();
      let kb = Sys.opaque_identity kb and ib = Sys.opaque_identity ib and mb = Sys.opaque_identity mb in
      let call (k, iv, m, want) what =
        Bytes.blit_string k 0 kb 0 kl; Bytes.blit_string iv 0 ib 0 il; Bytes.blit_string m 0 mb 0 ml;
        tr 1;
        let got = f (Bytes.unsafe_to_string kb) (Bytes.unsafe_to_string ib) (Bytes.unsafe_to_string mb) in
        eqf (fun () -> Printf.sprintf "%s: key %s iv %s data %s" what (show k) (show iv) (show m)) (Lazy.force want) got in
      List.iter (fun mv ->
        List.iteri (fun i a -> List.iteri (fun j b -> List.iteri (fun k c ->
          trace (); st_s (n, mv, i, j, k);
          call a "first call"; call b "second call"; if mv = 1 then Gc.minor (); call c "third call") args) args) args) moves)) fns)

(* ---- C01: decryption inverts encryption on structured keys, IVs and texts, and on long texts ---- *)
let () = section "c01_structured" (fun () ->
  let open P_cipher in
  List.iter (fun bk ->
    let bf = String.length bk.bn >= 8 && String.sub bk.bn 0 8 = "blowfish" in
    let kl = String.length bk.bkey and bs = bk.bbs in
    let rt what mode ?iv k p =
      trace (); tr 2;
      let mk dir = if String.length p mod mode_unit bs mode = 0 then bk.cipher ~mode ?iv k dir else bk.cipher ~mode ~pad:Padding.length ?iv k dir in
      eqf (fun () -> Printf.sprintf "%s, %s, key %s" what (mode_name mode) (Ref.hex k)) p (transform_string (mk Cipher.Decrypt) (transform_string (mk Cipher.Encrypt) p)) in
    let w = if kl > 16 || bs = 8 && not bf && kl > 8 then 8 else 4 in
    let keys = words_list (if bf then [`Zero; `Ones; `Pat "sa"] else [`Zero; `Ones; `Pat "sa"; `Pat "sb"]) w (kl / w) in
    let keys = if bf && quick () then List.filteri (fun i _ -> i mod 9 = 0) keys else keys in
    let texts = String.concat "" (words_list [`Zero; `Ones; `Pat "sa"; `Pat "sb"] bs 3) in
    let halves = String.concat "" (words_list [`Zero; `Ones; `Pat "sa"; `Pat "sb"] (bs / 4) 4) in
    let texts1 = if quick () then Ref.zeros (2 * bs) ^ String.make bs '\xff' ^ pat "sa" bs ^ pat "sa" bs else texts in
    List.iteri (fun i k ->
      let k = if String.length k < kl then k ^ pat "sc" (kl - String.length k) else k in
      case (fun () -> Printf.sprintf "%s structured key %s" bk.bn (Ref.hex k)) (fun () ->
        st_s (bk.bn, "k", i);
        rt "texts" Cipher.ECB k (texts1 ^ String.sub (k ^ k) 0 bs);
        rt "texts" Cipher.CBC k texts1; rt "texts" Cipher.CTR k texts1)) keys;
    List.iter (fun mode ->
      List.iteri (fun i iv ->
        case (fun () -> Printf.sprintf "%s %s structured IV %s" bk.bn (mode_name mode) (Ref.hex iv)) (fun () ->
          st_s (bk.bn, "iv", mode, i);
          let cut s = match mode with Cipher.CTR_N 1 -> Ref.take s (min (String.length s) (200 * bs)) | _ -> s in
          if mode = Cipher.ECB then (rt "texts" mode bk.bkey texts; rt "halves" mode bk.bkey halves)
          else (rt "texts" mode ~iv bk.bkey (cut texts); rt "halves" mode ~iv bk.bkey (cut halves))))
        (words_list [`Zero; `Ones; `Pat "sa"] (bs / 4) 4)) (all_modes bs)) bks)

let () = section "c01_long" (fun () ->
  let open P_cipher in
  let sizes = pick [65536; 1 lsl 20] [65536; 1 lsl 20; 1 lsl 24] in
  List.iter (fun bk ->
    List.iter (fun mode ->
      if mode <> Cipher.CTR_N 1 then
      List.iter (fun (n, k) ->
        let slow = (match mode with Cipher.CFB i | OFB i -> i < bk.bbs | _ -> false) in
        if not (slow && n > pick 65536 (1 lsl 20)) && not (mode = Cipher.CTR_N 2 && n > 65000 * bk.bbs) then
        case (fun () -> Printf.sprintf "%s/%s, %d bytes by %d" bk.bn (mode_name mode) n k) (fun () ->
          trace (); tr 4; st_s (bk.bn, mode, n, k); patience 300;
          let p = pat "c01l" n in
          let pad = if n mod mode_unit bk.bbs mode = 0 then None else Some Padding.length in
          let mk dir = if mode = Cipher.ECB then bk.cipher ~mode ?pad bk.bkey dir else bk.cipher ~mode ?pad ~iv:(ivs bk.bbs) bk.bkey dir in
          let through t = if k = 0 then transform_string t p else by_pieces t k p in
          let c = through (mk Cipher.Encrypt) in beat ();
          let d = transform_string (mk Cipher.Decrypt) c in beat ();
          eq "round trip" p d;
          if k <> 0 then eq "round trip by pieces" p (by_pieces (mk Cipher.Decrypt) k c)))
        (List.concat_map (fun n -> [n, 0; n, 4093; n, 65536]) sizes)) (all_modes bk.bbs)) bks;
  List.iter (fun (name, mk) ->
    List.iter (fun (n, k) ->
      case (fun () -> Printf.sprintf "%s, %d bytes by %d" name n k) (fun () ->
        trace (); tr 4; st_s (name, n, k); patience 300;
        let p = pat "c01l" n in
        let c = if k = 0 then transform_string (mk Cipher.Encrypt) p else by_pieces (mk Cipher.Encrypt) k p in
        eq "round trip" p (transform_string (mk Cipher.Decrypt) c);
        if k <> 0 then eq "round trip by pieces" p (by_pieces (mk Cipher.Decrypt) k c)))
      (List.concat_map (fun n -> [n, 0; n, 4093; n, 65536; n + 1, 0]) sizes))
    [ "arcfour", (fun d -> Cipher.arcfour (key 16) d); "chacha20", (fun d -> Cipher.chacha20 (key 32) d);
      "chacha20 counter", (fun d -> Cipher.chacha20 ~iv:(ivs 8) ~ctr:0xFFFF_FFF0L (key 32) d) ])
