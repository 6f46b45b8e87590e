(* C26: independent objects; C25: configurations *)
open E
open Cryptokit
open Objs
let uniq = ()
let range = P_pk.range

(* A session is a fixed sequence of steps on objects of its own; its transcript
   must be the one given by the model whatever else happens between or inside steps. *)
type sess = { sn : string; want : string Lazy.t; start : unit -> (unit -> unit) array * (unit -> string) }
let memo = Hashtbl.create 50
let lk label n = (* one physical string per label and length *)
  match Hashtbl.find_opt memo (label, n) with Some s -> s | None -> let s = pat label n in Hashtbl.add memo (label, n) s; s
let bcs : (string, Ref.bc) Hashtbl.t = Hashtbl.create 50
let bc name f k = match Hashtbl.find_opt bcs (name ^ k) with Some b -> b | None -> let b = f k in Hashtbl.add bcs (name ^ k) b; b
let unok s = if String.length s >= 3 && String.sub s 0 3 = "ok:" then Ref.drop s 3 else failwith ("model: " ^ s)
let session sn want mk =
  { sn; want; start = (fun () -> let b = ref [] in let steps = mk (fun r -> b := r :: !b) in (Array.of_list steps, fun () -> String.concat "" (List.rev !b))) }
let obj mk =
  let r = ref None in
  ((fun () -> r := Some (mk ())), (fun () -> match !r with Some x -> x | None -> failwith "object not created"))
let ts sn mk model s cut =
  session sn (lazy (model s)) (fun emit ->
    let (create, x) = obj (fun () : transform -> mk ()) in
    [ create;
      (fun () -> (x ())#put_substring (Bytes.of_string s) 0 cut; emit (x ())#get_string);
      (fun () -> if String.length s > cut then begin (x ())#put_char s.[cut]; (x ())#put_string (Ref.drop s (cut + 1)) end);
      (fun () -> (x ())#finish; let (b, o, l) = (x ())#get_substring in emit (Bytes.sub_string b o l); emit (x ())#get_string);
      (fun () -> (x ())#wipe) ])
let hs sn mk model s cut =
  session sn (lazy (model s)) (fun emit ->
    let (create, x) = obj (fun () : hash -> mk ()) in
    [ create; (fun () -> (x ())#add_substring (Bytes.of_string s) 0 cut); (fun () -> (x ())#add_byte (Char.code s.[cut]); (x ())#add_string (Ref.drop s (cut + 1)));
      (fun () -> emit (x ())#result); (fun () -> (x ())#wipe) ])
let au sn mk model s cut =
  session sn (lazy (model s)) (fun emit ->
    let (create, x) = obj (fun () : authenticated_transform -> mk ()) in
    [ create; (fun () -> (x ())#put_substring (Bytes.of_string s) 0 cut; emit (x ())#get_string);
      (fun () -> (x ())#put_byte (Char.code s.[cut]); (x ())#put_string (Ref.drop s (cut + 1)));
      (fun () -> let t = (x ())#finish_and_get_tag in emit (x ())#get_string; emit t); (fun () -> (x ())#wipe) ])
(* fed and read one byte at a time *)
let tc sn mk model s =
  session sn (lazy (model s)) (fun emit ->
    let (create, x) = obj (fun () : transform -> mk ()) in
    let n = String.length s in
    let read () = while (x ())#available_output > 0 do emit (String.make 1 (x ())#get_char); if (x ())#available_output > 0 then emit (String.make 1 (Char.chr (x ())#get_byte)) done in
    let feed a b = for i = a to b - 1 do if i land 1 = 0 then (x ())#put_char s.[i] else (x ())#put_byte (Char.code s.[i]) done in
    [ create; (fun () -> feed 0 (n / 2)); (fun () -> read (); feed (n / 2) (n - 1)); (fun () -> feed (n - 1) n; (x ())#finish; read ()); (fun () -> (x ())#wipe) ])
let hc_ sn mk model s =
  session sn (lazy (model s)) (fun emit ->
    let (create, x) = obj (fun () : hash -> mk ()) in
    let n = String.length s in
    let feed a b = for i = a to b - 1 do if i land 1 = 0 then (x ())#add_char s.[i] else (x ())#add_byte (Char.code s.[i]) done in
    [ create; (fun () -> feed 0 (n / 2)); (fun () -> feed (n / 2) n); (fun () -> emit (x ())#result); (fun () -> (x ())#wipe) ])
let rs sn mk model =
  session sn (lazy (model 100)) (fun emit ->
    let (create, x) = obj (fun () : Random.rng -> mk ()) in
    [ create; (fun () -> emit (Random.string (x ()) 5)); (fun () -> emit (Random.string (x ()) 70)); (fun () -> emit (Random.string (x ()) 25)); (fun () -> (x ())#wipe) ])
let fs sn l = session sn (lazy (String.concat "" (List.map fst l))) (fun emit -> List.map (fun (_, f) -> fun () -> emit (f ())) l)

(* files of known contents, in the scratch directory of the run *)
let write f s = let oc = open_out_bin f in output_string oc s; close_out oc
let read f = let ic = open_in_bin f in let s = really_input_string ic (in_channel_length ic) in close_in ic; s
let files = Hashtbl.create 10
let file label n =
  match Hashtbl.find_opt files (label, n, Unix.getpid ()) with
  | Some f -> f
  | None ->
    let f = Printf.sprintf "c26.%d.%s.%d" (Unix.getpid ()) label n in
    write f (lk label n); Hashtbl.add files (label, n, Unix.getpid ()) f; f
let out_n = ref 0
let out_file () = lazy (incr out_n; Printf.sprintf "c26.%d.%d.out" (Unix.getpid ()) !out_n)
let channel_sessions wrap_t wrap_h kl dl =
  let k n = lk kl n and d n = lk dl n in
  let size = 2500 in
  let want_x = lazy (Ref.xor (d size) (Ref.rc4_keystream (k 16) size)) in
  [ session "transform_channel" want_x (fun emit ->
      let out = out_file () in
      [ (fun () ->
          let ic = open_in_bin (file dl size) and oc = open_out_bin (Lazy.force out) in
          transform_channel (wrap_t (Cipher.arcfour (k 16) Cipher.Encrypt)) ic oc; close_in ic; close_out oc);
        (fun () -> emit (read (Lazy.force out)); Sys.remove (Lazy.force out)) ]);
    session "transform_channel ~len" (lazy (Ref.take (Lazy.force want_x) 1300)) (fun emit ->
      let out = out_file () in
      [ (fun () ->
          let ic = open_in_bin (file dl size) and oc = open_out_bin (Lazy.force out) in
          transform_channel (wrap_t (Cipher.arcfour (k 16) Cipher.Encrypt)) ~len:1300 ic oc; close_in ic; close_out oc);
        (fun () -> emit (read (Lazy.force out)); Sys.remove (Lazy.force out)) ]);
    session "hash_channel" (lazy (Ref.hmac Ref.sha1 (k 20) (d size) ^ Ref.hmac Ref.sha1 (k 20) (Ref.take (d size) 1300))) (fun emit ->
      [ (fun () -> let ic = open_in_bin (file dl size) in emit (hash_channel (wrap_h (MAC.hmac_sha1 (k 20))) ic); close_in ic);
        (fun () -> let ic = open_in_bin (file dl size) in emit (hash_channel (wrap_h (MAC.hmac_sha1 (k 20))) ~len:1300 ic); close_in ic) ]) ]
let device_sessions kl dl =
  [ session "device_rng" (lazy (Ref.take (lk dl 2500) 100)) (fun emit ->
      let (create, x) = obj (fun () -> Random.device_rng (file dl 2500)) in
      [ create; (fun () -> emit (Random.string (x ()) 5)); (fun () -> emit (Random.string (x ()) 70)); (fun () -> emit (Random.string (x ()) 25)); (fun () -> (x ())#wipe) ]);
    session "system_rng" (lazy "100") (fun emit ->
      let (create, x) = obj Random.system_rng in
      let s = ref "" in
      [ create; (fun () -> s := Random.string (x ()) 30); (fun () -> let t = Random.string (x ()) 70 in
          if String.sub t 0 30 = !s || String.sub t 0 16 = Ref.zeros 16 then fail "system_rng repeats itself"; emit (string_of_int (String.length t + 30))); (fun () -> (x ())#wipe) ]) ]

(* kl: label of the keys; dl: label of the data *)
let fams kl dl =
  let k n = lk kl n and d n = lk dl n and iv n = lk (kl ^ "iv") n in
  let nm s = s in
  let c name cipher ref_ kn bs mode pad dir n =
    let b () = bc name ref_ (k kn) in
    let model s = unok (cipher_model (b ()) mode (if mode = Cipher.ECB then Ref.zeros bs else iv bs) pad dir s) in
    let s = lazy (if dir = Cipher.Decrypt && pad <> No then unok (cipher_model (b ()) mode (iv bs) pad Cipher.Encrypt (d n)) else d n) in
    (nm (Printf.sprintf "%s %s %s %s" name (mode_name mode) (pad_name pad) (dirname dir)), cipher, kn, bs, mode, pad, dir, model, s) in
  let mkc (n, (cipher : ?mode:Cipher.chaining_mode -> ?pad:Padding.scheme -> ?iv:string -> string -> Cipher.direction -> transform), kn, bs, mode, pad, dir, model, s) =
    let s = Lazy.force s in
    ts n (fun () -> cipher ~mode ?pad:(pad_arg pad) ?iv:(if mode = Cipher.ECB then None else Some (iv bs)) (k kn) dir) model s (String.length s / 2 + 1) in
  List.map mkc [
    c "aes" Cipher.aes Ref.aes 16 16 Cipher.CBC Len Cipher.Encrypt 40; c "aes" Cipher.aes Ref.aes 16 16 Cipher.CBC Len Cipher.Decrypt 40;
    c "aes" Cipher.aes Ref.aes 16 16 Cipher.CTR No Cipher.Encrypt 48; c "aes" Cipher.aes Ref.aes 32 16 (Cipher.CFB 8) P8000 Cipher.Encrypt 29;
    c "aes" Cipher.aes Ref.aes 24 16 (Cipher.OFB 3) No Cipher.Decrypt 30; c "aes" Cipher.aes Ref.aes 16 16 Cipher.ECB No Cipher.Decrypt 48;
    c "des" Cipher.des Ref.des 8 8 Cipher.CBC Len Cipher.Encrypt 21; c "des" Cipher.des Ref.des 8 8 Cipher.ECB No Cipher.Decrypt 24;
    c "3des" Cipher.triple_des Ref.tdes 24 8 Cipher.CBC No Cipher.Encrypt 24; c "3des" Cipher.triple_des Ref.tdes 16 8 Cipher.CBC P8000 Cipher.Decrypt 20;
    c "blowfish" Cipher.blowfish Ref.blowfish 16 8 Cipher.CBC Len Cipher.Encrypt 21; c "blowfish" Cipher.blowfish Ref.blowfish 16 8 Cipher.CTR No Cipher.Decrypt 24 ]
  @ [ ts "chacha20" (fun () -> Cipher.chacha20 ~iv:(iv 12) (k 32) Cipher.Encrypt) (fun s -> Ref.xor s (Ref.chacha_keystream ~iv:(iv 12) (k 32) (String.length s))) (d 90) 30;
      ts "arcfour" (fun () -> Cipher.arcfour (k 16) Cipher.Encrypt) (fun s -> Ref.xor s (Ref.rc4_keystream (k 16) (String.length s))) (d 90) 30;
      ts "base64" (fun () -> Base64.encode_compact_pad ()) (Ref.b64 ~pad:true) (d 50) 20;
      ts "base64 decode" (fun () -> Base64.decode ()) (fun _ -> d 50) (Ref.b64 ~pad:true (d 50)) 21;
      ts "hexa" (fun () -> Hexa.encode ()) Ref.hex (d 50) 20;
      ts "hexa decode" (fun () -> Hexa.decode ()) (fun _ -> d 50) (Ref.hex (d 50)) 21;
      ts "compose" (fun () -> compose (Cipher.arcfour (k 16) Cipher.Encrypt) (Hexa.encode ())) (fun s -> Ref.hex (Ref.xor s (Ref.rc4_keystream (k 16) (String.length s)))) (d 40) 17;
      ts "toy" (fun () -> new Block.cipher_padded_encrypt Padding.length (new Block.cbc_encrypt ~iv:(iv 7) (toy_enc 7))) (fun s -> Ref.cbc_enc (toy_bc 7) (iv 7) (Ref.pad_length 7 s)) (d 40) 17 ]
  @ [ tc "chacha20 by chars" (fun () -> Cipher.chacha20 (k 32) Cipher.Encrypt) (fun s -> Ref.xor s (Ref.chacha_keystream (k 32) (String.length s))) (d 7);
      tc "arcfour by chars" (fun () -> Cipher.arcfour (k 16) Cipher.Decrypt) (fun s -> Ref.xor s (Ref.rc4_keystream (k 16) (String.length s))) (d 7);
      tc "aes by chars" (fun () -> Cipher.aes ~pad:Padding.length ~iv:(iv 16) (k 16) Cipher.Encrypt) (fun s -> Ref.cbc_enc (bc "aes" Ref.aes (k 16)) (iv 16) (Ref.pad_length 16 s)) (d 18);
      tc "base64 by chars" (fun () -> Base64.encode_compact_pad ()) (Ref.b64 ~pad:true) (d 7);
      tc "base64 decode by chars" (fun () -> Base64.decode ()) (fun _ -> d 7) (Ref.b64 ~pad:true (d 7));
      tc "hexa by chars" (fun () -> Hexa.encode ()) Ref.hex (d 7);
      tc "hexa decode by chars" (fun () -> Hexa.decode ()) (fun _ -> d 4) (Ref.hex (d 4));
      tc "compose by chars" (fun () -> compose (Cipher.arcfour (k 16) Cipher.Encrypt) (Base64.encode_compact ())) (fun s -> Ref.b64 ~pad:false (Ref.xor s (Ref.rc4_keystream (k 16) (String.length s)))) (d 7);
      hc_ "sha1 by chars" Hash.sha1 (Ref.hash Ref.sha1) (d 7); hc_ "sha3 by chars" (fun () -> Hash.sha3 224) (Ref.hash (Ref.sha3 224)) (d 7);
      hc_ "hmac by chars" (fun () -> MAC.hmac_sha256 (k 20)) (Ref.hmac Ref.sha256 (k 20)) (d 7);
      hc_ "siphash by chars" (fun () -> MAC.siphash (k 16)) (fun s -> Ref.hash ~key:(k 16) (Ref.sip 8) s) (d 9);
      hc_ "blake2b by chars" (fun () -> MAC.blake2b512 (k 16)) (fun s -> Ref.hash ~key:(k 16) (Ref.blake2b 512) s) (d 9);
      hc_ "cmac by chars" (fun () -> MAC.aes_cmac (k 16)) (fun s -> Ref.cmac (bc "aes" Ref.aes (k 16)) (Ref.zeros 16) s) (d 17) ]
  @ List.map (fun (n, mk, id) -> hs n mk (Ref.hash id) (d 200) 77) [
      "md5", Hash.md5, Ref.md5; "sha1", Hash.sha1, Ref.sha1; "sha224", Hash.sha224, Ref.sha224; "sha256", Hash.sha256, Ref.sha256; "sha384", Hash.sha384, Ref.sha384; "sha512", Hash.sha512, Ref.sha512;
      "ripemd160", Hash.ripemd160, Ref.ripemd160; "sha3", (fun () -> Hash.sha3 256), Ref.sha3 256; "keccak", (fun () -> Hash.keccak 512), Ref.keccak 512;
      "blake2b", Hash.blake2b512, Ref.blake2b 512; "blake2s", Hash.blake2s256, Ref.blake2s 256; "blake3", Hash.blake3_256, Ref.blake3 256 ]
  @ List.map (fun (n, mk, id) -> hs n (fun () -> mk (k 20)) (Ref.hmac id (k 20)) (d 150) 77) hmacs
  @ [ hs "blake2b mac" (fun () -> MAC.blake2b 200 (k 40)) (fun s -> Ref.hash ~key:(k 40) (Ref.blake2b 200) s) (d 300) 100;
      hs "blake2s mac" (fun () -> MAC.blake2s256 (k 20)) (fun s -> Ref.hash ~key:(k 20) (Ref.blake2s 256) s) (d 150) 40;
      hs "blake3 mac" (fun () -> MAC.blake3_256 (k 32)) (fun s -> Ref.hash ~key:(k 32) (Ref.blake3 256) s) (d 1500) 1000;
      hs "cmac" (fun () -> MAC.aes_cmac (k 16)) (fun s -> Ref.cmac (bc "aes" Ref.aes (k 16)) (Ref.zeros 16) s) (d 40) 17;
      hs "aes mac" (fun () -> MAC.aes ~iv:(iv 16) ~pad:Padding._8000 (k 16)) (fun s -> Ref.cbc_mac (bc "aes" Ref.aes (k 16)) (iv 16) (Ref.pad_8000 16 s)) (d 40) 17;
      hs "des mac" (fun () -> MAC.des ~pad:Padding.length (k 8)) (fun s -> Ref.cbc_mac (bc "des" Ref.des (k 8)) (Ref.zeros 8) (Ref.pad_length 8 s)) (d 40) 17;
      hs "des final" (fun () -> MAC.des_final_triple_des (k 24)) (fun s -> dftd (Ref.zeros 8) (k 24) s) (d 40) 16;
      hs "siphash" (fun () -> MAC.siphash (k 16)) (fun s -> Ref.hash ~key:(k 16) (Ref.sip 8) s) (d 40) 17;
      hs "siphash128" (fun () -> MAC.siphash128 (k 16)) (fun s -> Ref.hash ~key:(k 16) (Ref.sip 16) s) (d 40) 17 ]
  @ List.concat_map (fun (n, f, kn, il, crypt, tag) -> List.map (fun dir ->
      let h = lk (dl ^ "hdr") 21 in
      au (Printf.sprintf "%s %s" n (match dir with AEAD.Encrypt -> "enc" | _ -> "dec")) (fun () -> f ?header:(Some h) ~iv:(iv il) (k kn) dir)
        (fun s -> let o = crypt (k kn) (iv il) s in o ^ tag (k kn) (iv il) h (if dir = AEAD.Encrypt then o else s)) (d 50) 23) [AEAD.Encrypt; AEAD.Decrypt])
      ["gcm/12", AEAD.aes_gcm, 16, 12, Ref.gcm_crypt, Ref.gcm_tag; "gcm/7", AEAD.aes_gcm, 32, 7, Ref.gcm_crypt, Ref.gcm_tag; "chapoly", AEAD.chacha20_poly1305, 32, 12, Ref.chapoly_crypt, Ref.chapoly_tag]
  @ [ au "then_hash" (fun () -> transform_then_hash (Hexa.encode ()) (MAC.hmac_sha256 (k 20))) (fun s -> let o = Ref.hex s in o ^ Ref.hmac Ref.sha256 (k 20) o) (d 30) 11;
      au "and_hash" (fun () -> transform_and_hash (Cipher.arcfour (k 16) Cipher.Encrypt) (Hash.sha3 512)) (fun s -> Ref.xor s (Ref.rc4_keystream (k 16) (String.length s)) ^ Ref.hash (Ref.sha3 512) s) (d 30) 11;
      rs "pseudo_rng" (fun () -> Random.pseudo_rng (k 32 ^ "")) (fun n -> Ref.chacha_keystream (k 32) n);
      rs "pseudo_rng_aes_ctr" (fun () -> Random.pseudo_rng_aes_ctr (k 16 ^ "")) (fun n -> Ref.take (Ref.ctr 16 (bc "aes" Ref.aes (k 16)) (Ref.zeros 16) (Ref.zeros 112)) n) ]
  @ (let s = d 200 ^ String.make 500 'z' ^ d 100 in
     if Lazy.force P_mem.has_zlib then
     [ session "zlib" (lazy s) (fun emit ->
         let (create, x) = obj Zlib.compress and (create', y) = obj Zlib.uncompress in
         let move () = (y ())#put_string (x ())#get_string in
         [ (fun () -> create (); create' ()); (fun () -> (x ())#put_string (Ref.take s 300); (x ())#flush; move (); emit (y ())#get_string);
           (fun () -> (x ())#put_string (Ref.drop s 300)); (fun () -> (x ())#finish; move (); (y ())#finish; emit (y ())#get_string); (fun () -> (x ())#wipe; (y ())#wipe) ]) ] else [])
  @ (let p, q, e = if kl = "A" then 1019, 1021, 7 else 1031, 1033, 7 in
     let (priv, pub) = P_pk.rsa_key p q e in
     let w = (pub.RSA.size + 7) / 8 in
     let n = Z.of_int (p * q) in
     let m = Z.of_int (Hashtbl.hash dl mod 100000) in
     let cz = Z.powm m (Z.of_int e) n in
     let c = P_pk.be w cz and mm = P_pk.be w m in
     let dh = { DH.p = P_pk.be 8 (Z.of_int 2147483647); g = "\007"; privlen = 40 } in
     let ppriv, ppub = P_pk.paillier (if kl = "A" then 1019 else 1039) 1021 in
     let pw = String.length ppub.Paillier.n in
     let dhz = DH.private_secret ~rng:(P_pk.scripted ~label:dl "") dh in
     let dm = DH.message dh dhz in
     [ fs "rsa" [c, (fun () -> RSA.encrypt pub mm); mm, (fun () -> RSA.decrypt priv c); mm, (fun () -> RSA.decrypt_CRT priv c); c, (fun () -> RSA.unwrap_signature { pub with RSA.n = pub.RSA.n } mm); "", (fun () -> RSA.wipe_key (fst (P_pk.rsa_key p q e)); "")];
       session "dh" (lazy (dm ^ DH.shared_secret dh (DH.private_secret ~rng:(P_pk.scripted ~label:(dl ^ "2") "") dh) dm ^ P_pk.derive_model "x" (d 20) 40)) (fun emit ->
         let (c1, p1) = obj (fun () -> DH.private_secret ~rng:(P_pk.scripted ~label:dl "") dh) and (c2, p2) = obj (fun () -> DH.private_secret ~rng:(P_pk.scripted ~label:(dl ^ "2") "") dh) in
         let msg = ref "" in
         [ (fun () -> c1 (); c2 ()); (fun () -> msg := DH.message dh (p1 ()); emit !msg); (fun () -> emit (DH.shared_secret dh (p2 ()) !msg)); (fun () -> emit (DH.derive_key ~diversification:"x" (d 20) 40)) ]);
       session "paillier" (lazy (P_pk.be pw (Z.of_int 1000))) (fun emit ->
         let c1 = ref "" and c2 = ref "" and s = ref "" in
         let enc l v = Paillier.encrypt ~rng:(P_pk.scripted ~label:l "") ppub (P_pk.be pw (Z.of_int v)) in
         [ (fun () -> c1 := enc dl 300); (fun () -> c2 := enc (dl ^ "2") 700); (fun () -> s := Paillier.add ppub !c1 !c2); (fun () -> emit (P_pk.be pw (P_pk.num (Paillier.decrypt ppriv !s)))) ]) ])
  @ channel_sessions (fun t -> t) (fun h -> h) kl dl @ device_sessions kl dl

let run_all s = let (steps, out) = s.start () in Array.iter (fun f -> f ()) steps; out ()
let check what s got = eqf (fun () -> Printf.sprintf "%s %s" s.sn what) (Lazy.force s.want) got
let pairs f =
  let a = fams "A" "da" in
  List.iter (fun (how, bs) -> List.iteri (fun i sa -> List.iteri (fun j sb -> f how sa sb) bs) a)
    ["same key", fams "A" "db"; "different key", fams "B" "db"; ]

let () = section "c26_interleavings" (fun () ->
  pairs (fun how sa sb ->
    case (fun () -> Printf.sprintf "%s and %s (%s): all interleavings" sa.sn sb.sn how) (fun () ->
      let (s0, _) = sa.start () and (s1, _) = sb.start () in
      let na = Array.length s0 and nb = Array.length s1 in
      let run sched =
        let (xa, oa) = sa.start () and (xb, ob) = sb.start () in
        let i = ref 0 and j = ref 0 in
        List.iter (fun a -> if a then (xa.(!i) (); incr i) else (xb.(!j) (); incr j)) sched;
        trace (); tr (na + nb);
        let show () = String.concat "" (List.map (fun a -> if a then "A" else "B") sched) in
        if oa () <> Lazy.force sa.want then check (Printf.sprintf "(first of the two) in schedule %s with %s" (show ()) sb.sn) sa (oa ());
        if ob () <> Lazy.force sb.want then check (Printf.sprintf "(second of the two) in schedule %s with %s" (show ()) sa.sn) sb (ob ()) in
      let rec go sched i j =
        st_s (sa.sn, sb.sn, how, i, j);
        if i = na && j = nb then run (List.rev sched)
        else begin
          if i < na then go (true :: sched) (i + 1) j;
          if j < nb then go (false :: sched) i (j + 1)
        end in
      go [] 0 0)))

(* three sessions of the same kind, different keys: all interleavings *)
let () = section "c26_three" (fun () ->
  let a = Array.of_list (fams "A" "da") and b = Array.of_list (fams "B" "db") and c = Array.of_list (fams "A" "dc") in
  for x = 0 to Array.length a - 1 do
    let ss = [| a.(x); b.(x); c.(x) |] in
    let ns = Array.map (fun s -> Array.length (fst (s.start ()))) ss in
    for p0 = 0 to 2 do for p1 = 0 to 2 do
      case (fun () -> Printf.sprintf "three sessions of %s: all interleavings starting with %d, %d" ss.(0).sn p0 p1) (fun () ->
        (* create+first use are one step in the quick tier *)
        let merge = quick () in
        let len i = if merge then (ns.(i) + 1) / 2 else ns.(i) in
        let run sched =
          let ex = Array.map (fun s -> s.start ()) ss in
          let pos = [| 0; 0; 0 |] in
          List.iter (fun i ->
            let (st, _) = ex.(i) in
            let k = if merge then min 2 (ns.(i) - pos.(i)) else 1 in
            for _ = 1 to k do st.(pos.(i)) (); pos.(i) <- pos.(i) + 1 done) sched;
          trace (); tr (ns.(0) + ns.(1) + ns.(2));
          Array.iteri (fun i (_, o) -> if o () <> Lazy.force ss.(i).want then
            check (Printf.sprintf "(session %d) in schedule %s" i (String.concat "" (List.map string_of_int sched))) ss.(i) (o ())) ex in
        let rec go sched i j k =
          st_s (ss.(0).sn, i, j, k);
          if i = len 0 && j = len 1 && k = len 2 then run (List.rev sched)
          else begin
            if i < len 0 then go (0 :: sched) (i + 1) j k;
            if j < len 1 then go (1 :: sched) i (j + 1) k;
            if k < len 2 then go (2 :: sched) i j (k + 1)
          end; if (i + j + k) = 4 then beat () in
        let c = [| 0; 0; 0 |] in
        c.(p0) <- c.(p0) + 1; c.(p1) <- c.(p1) + 1;
        go [p1; p0] c.(0) c.(1) c.(2))
    done done
  done)

(* B's session, whole or from its middle, inside A at every poll point *)
let blocking s = List.mem s.sn ["transform_channel"; "transform_channel ~len"; "hash_channel"; "device_rng"; "system_rng"]
let () = section "c26_polls" (fun () ->
  pairs (fun how sa sb ->
    (* sessions with blocking system calls: see c26_blocking *)
    let pres = if not (quick ()) then [0; 1; 2; 3] else if how = "different key" then [0; 2] else if sa.sn = sb.sn then [0; 1; 2; 3] else [] in
    if not (blocking sa) && pres <> [] then case (fun () -> Printf.sprintf "%s interrupted by %s (%s) at every poll point" sa.sn sb.sn how) (fun () ->
      let (r0, n) = P_mem.with_polls (-1) (fun () -> ()) (fun () -> run_all sa) in
      check "alone" sa r0;
      List.iter (fun pre ->
        for i = 0 to n do
          trace (); tr 2; st_s (sa.sn, sb.sn, how, i, pre);
          let (xb, ob) = sb.start () in
          let pre = min pre (Array.length xb - 1) in
          for s = 0 to pre - 1 do xb.(s) () done;
          let ran = ref false in
          let (r, _) = P_mem.with_polls i (fun () -> ran := true; for s = pre to Array.length xb - 1 do xb.(s) () done) (fun () -> run_all sa) in
          check (Printf.sprintf "interrupted at point %d of %d by %s from step %d" i n sb.sn pre) sa r;
          if !ran then check (Printf.sprintf "executed inside %s at point %d of %d from step %d" sa.sn i n pre) sb (ob ())
        done) pres)))

(* another thread gets the master lock at each blocking section *)
external block_arm : int -> unit = "vw_block_arm"
external block_disarm : unit -> int = "vw_block_disarm"
let block_act = ref (fun () -> ())
let () = Callback.register "vw_block" (fun () -> !block_act ())
let () = section "c26_blocking" (fun () ->
  pairs (fun how sa sb ->
    case (fun () -> Printf.sprintf "%s interrupted by %s (%s) and a compaction at every blocking section" sa.sn sb.sn how) (fun () ->
      block_act := (fun () -> ());
      block_arm (-1);
      let r0 = run_all sa in
      let n = block_disarm () in
      check "alone" sa r0; trace (); tr 1; st_s (sa.sn, sb.sn, how);
      List.iter (fun gc ->
      for i = 0 to n - 1 do
        trace (); tr 2; st_s (sa.sn, sb.sn, how, i);
        let rb = ref None in
        block_act := (fun () -> rb := Some (run_all sb); if gc then P_mem.gc_now 2);
        block_arm i;
        let r = match run_all sa with r -> ignore (block_disarm ()); r | exception e -> ignore (block_disarm ()); raise e in
        check (Printf.sprintf "with %s running in blocking section %d of %d" sb.sn i n) sa r;
        (match !rb with Some r -> check (Printf.sprintf "run while %s is in blocking section %d" sa.sn i) sb r | None -> ())
      done) [false; true])))

(* user callbacks: at the i-th callback made by A, B runs *)
let hook = ref (fun () -> ())
class hooked (c : Block.block_cipher) = object
  method blocksize = c#blocksize
  method transform s so d d' = !hook (); c#transform s so d d'; !hook ()
  method wipe = !hook (); c#wipe
end
let hc c = (new hooked c :> Block.block_cipher)
class hooked_stream (c : Stream.stream_cipher) = object
  method transform s so d d' l = !hook (); c#transform s so d d' l; !hook ()
  method wipe = !hook (); c#wipe
end
class hooked_pad (p : Padding.scheme) : Padding.scheme = object
  method pad b n = !hook (); p#pad b n; !hook ()
  method strip b = !hook (); let r = p#strip b in !hook (); r
end
let hrng l : Random.rng = let r = P_pk.scripted ~label:l "" in object
  method random_bytes b o n = !hook (); r#random_bytes b o n; !hook ()
  method wipe = () end
class hooked_hash (h : hash) : hash = object
  method hash_size = h#hash_size
  method add_substring b o l = !hook (); h#add_substring b o l
  method add_string s = !hook (); h#add_string s
  method add_char c = !hook (); h#add_char c
  method add_byte c = !hook (); h#add_byte c
  method result = !hook (); let r = h#result in !hook (); r
  method wipe = !hook (); h#wipe
end
class hooked_transform (t : transform) : transform = object
  method put_substring b o l = !hook (); t#put_substring b o l; !hook ()
  method put_string s = !hook (); t#put_string s; !hook ()
  method put_char c = !hook (); t#put_char c
  method put_byte c = !hook (); t#put_byte c
  method finish = !hook (); t#finish; !hook ()
  method flush = !hook (); t#flush; !hook ()
  method available_output = !hook (); t#available_output
  method get_string = !hook (); let s = t#get_string in !hook (); s
  method get_substring = !hook (); t#get_substring
  method get_char = !hook (); t#get_char
  method get_byte = !hook (); t#get_byte
  method input_block_size = t#input_block_size
  method output_block_size = t#output_block_size
  method wipe = !hook (); t#wipe
end
let callback_sessions () =
  let k n = lk "A" n and d n = lk "da" n and iv n = lk "Aiv" n in
  let aes () = bc "aes" Ref.aes (k 16) in
  let e () = hc (new Block.aes_encrypt (k 16)) and dd () = hc (new Block.aes_decrypt (k 16)) in
  let hp p = (new hooked_pad p :> Padding.scheme) in
  let tt sn mk model s = ts sn mk model s (String.length s / 2 + 1) in
  let (_, pub) = P_pk.paillier 1019 1021 in
  ignore pub;
  let rsa_want = lazy (let (a, b) = RSA.new_key ~rng:(P_pk.scripted ~label:"cb" "") ~e:65537 64 in a.RSA.n ^ a.d ^ b.e) in
  let dh = { DH.p = P_pk.be 8 (Z.of_int 2147483647); g = "\007"; privlen = 40 } in
  [ tt "cbc_encrypt" (fun () -> new Block.cipher_padded_encrypt Padding.length (new Block.cbc_encrypt ~iv:(iv 16) (e ()))) (fun s -> Ref.cbc_enc (aes ()) (iv 16) (Ref.pad_length 16 s)) (d 40);
    tt "cbc_decrypt" (fun () -> new Block.cipher (new Block.cbc_decrypt ~iv:(iv 16) (dd ()))) (fun s -> Ref.cbc_dec (aes ()) (iv 16) s) (d 48);
    tt "cfb_encrypt" (fun () -> new Block.cipher (new Block.cfb_encrypt ~iv:(iv 16) 5 (e ()))) (fun s -> Ref.cfb true 5 (aes ()) (iv 16) s) (d 25);
    tt "cfb_decrypt" (fun () -> new Block.cipher (new Block.cfb_decrypt ~iv:(iv 16) 5 (e ()))) (fun s -> Ref.cfb false 5 (aes ()) (iv 16) s) (d 25);
    tt "ofb" (fun () -> new Block.cipher (new Block.ofb ~iv:(iv 16) 7 (e ()))) (fun s -> Ref.ofb 7 (aes ()) (iv 16) s) (d 35);
    tt "ctr" (fun () -> new Block.cipher (new Block.ctr ~iv:(iv 16) (e ()))) (fun s -> Ref.ctr 16 (aes ()) (iv 16) s) (d 48);
    tt "padding length" (fun () -> new Block.cipher_padded_encrypt (hp Padding.length) (e ())) (fun s -> Ref.ecb true (aes ()) (Ref.pad_length 16 s)) (d 37);
    tt "padding 8000" (fun () -> new Block.cipher_padded_decrypt (hp Padding._8000) (dd ())) (fun _ -> d 37) (Ref.ecb true (aes ()) (Ref.pad_8000 16 (d 37)));
    tt "stream cipher" (fun () -> new Stream.cipher (new hooked_stream (new Stream.arcfour (k 16)))) (fun s -> Ref.xor s (Ref.rc4_keystream (k 16) (String.length s))) (d 40);
    tc "stream cipher by chars" (fun () -> new Stream.cipher (new hooked_stream (new Stream.chacha20 (k 32)))) (fun s -> Ref.xor s (Ref.chacha_keystream (k 32) (String.length s))) (d 5);
    tc "block cipher by chars" (fun () -> new Block.cipher_padded_encrypt (hp Padding.length) (hc (toy_enc 2))) (fun s -> Ref.ecb true (toy_bc 2) (Ref.pad_length 2 s)) (d 5);
    tc "padded decryption by chars" (fun () -> new Block.cipher_padded_decrypt (hp Padding.length) (hc (toy_dec 2))) (fun _ -> d 5) (Ref.ecb true (toy_bc 2) (Ref.pad_length 2 (d 5)));
    hc_ "mac by chars" (fun () -> new Block.mac ~pad:(hp Padding._8000) (hc (toy_enc 2))) (fun s -> Ref.cbc_mac (toy_bc 2) (Ref.zeros 2) (Ref.pad_8000 2 s)) (d 5);
    hs "mac" (fun () -> new Block.mac ~iv:(iv 16) ~pad:(hp Padding._8000) (e ())) (fun s -> Ref.cbc_mac (aes ()) (iv 16) (Ref.pad_8000 16 s)) (d 40) 21;
    hs "mac_final_triple" (fun () -> new Block.mac_final_triple ~pad:(hp Padding.length) (hc (new Block.des_encrypt (k 8))) (hc (new Block.des_decrypt (d 8))) (hc (new Block.des_encrypt (iv 8))))
      (fun s -> (Ref.des (iv 8)).Ref.enc ((Ref.des (d 8)).Ref.dec (Ref.cbc_mac (Ref.des (k 8)) (Ref.zeros 8) (Ref.pad_length 8 s)))) (d 20) 7;
    tt "compose" (fun () -> compose (new hooked_transform (Hexa.encode ())) (new hooked_transform (Cipher.arcfour (k 16) Cipher.Encrypt))) (fun s -> let h = Ref.hex s in Ref.xor h (Ref.rc4_keystream (k 16) (String.length h))) (d 40);
    au "then_hash" (fun () -> transform_then_hash (new hooked_transform (Hexa.encode ())) (new hooked_hash (MAC.hmac_sha1 (k 20)))) (fun s -> let o = Ref.hex s in o ^ Ref.hmac Ref.sha1 (k 20) o) (d 40) 21;
    au "and_hash" (fun () -> transform_and_hash (new hooked_transform (Hexa.encode ())) (new hooked_hash (Hash.sha3 224))) (fun s -> Ref.hex s ^ Ref.hash (Ref.sha3 224) s) (d 40) 21;
    session "transform_string" (lazy (Ref.hex (d 40))) (fun emit -> [ (fun () -> emit (transform_string (new hooked_transform (Hexa.encode ())) (d 40))) ]);
    session "hash_string" (lazy (Ref.hash Ref.sha1 (d 40))) (fun emit -> [ (fun () -> emit (hash_string (new hooked_hash (Hash.sha1 ())) (d 40))) ]);
    session "RSA.new_key" rsa_want (fun emit -> [ (fun () -> let (a, b) = RSA.new_key ~rng:(hrng "cb") ~e:65537 64 in emit (a.RSA.n ^ a.d ^ b.e)) ]);
    session "DH.private_secret" (lazy (DH.message dh (DH.private_secret ~rng:(P_pk.scripted ~label:"cb" "") dh))) (fun emit -> [ (fun () -> emit (DH.message dh (DH.private_secret ~rng:(hrng "cb") dh))) ]);
    session "Paillier.encrypt" (lazy (Paillier.encrypt ~rng:(P_pk.scripted ~label:"cb" "") pub "\007")) (fun emit -> [ (fun () -> emit (Paillier.encrypt ~rng:(hrng "cb") pub "\007")) ]);
    session "Random.string" (lazy (Random.string (P_pk.scripted ~label:"cb" "") 30)) (fun emit -> [ (fun () -> emit (Random.string (hrng "cb") 30)) ]) ]
  @ channel_sessions (new hooked_transform) (new hooked_hash) "A" "da"
let () = section "c26_callbacks" (fun () ->
  let bs = List.concat_map (fun (how, l) -> List.map (fun s -> (how, s)) l)
    ["same key", fams "A" "db"; "different key", fams "B" "db"; "callbacks too", callback_sessions ()] in
  List.iter (fun sa -> List.iter (fun (how, sb) ->
    case (fun () -> Printf.sprintf "%s with user callbacks using %s (%s)" sa.sn sb.sn how) (fun () ->
      let n = ref 0 in
      hook := (fun () -> incr n);
      let r0 = run_all sa in
      let total = !n in
      check "with callbacks that do nothing" sa r0;
      (* the whole of B at the i-th callback *)
      for i = 0 to total - 1 do
        let c = ref 0 and rb = ref "" in
        hook := (fun () -> if !c = i then (incr c; let h = !hook in hook := (fun () -> ()); rb := run_all sb; hook := h) else incr c);
        let r = run_all sa in
        hook := (fun () -> ());
        trace (); tr 2; st_s (sa.sn, sb.sn, how, i);
        check (Printf.sprintf "when callback %d of %d uses %s" i total sb.sn) sa r;
        check (Printf.sprintf "used by callback %d of %d of %s" i total sa.sn) sb !rb
      done;
      (* one step of B at each callback from the i-th on *)
      for i = 0 to total - 1 do
        let (xb, ob) = sb.start () in
        let c = ref 0 and j = ref 0 in
        hook := (fun () -> incr c; if !c > i && !j < Array.length xb then (let k = !j in incr j; let h = !hook in hook := (fun () -> ()); xb.(k) (); hook := h));
        let r = run_all sa in
        hook := (fun () -> ());
        while !j < Array.length xb do xb.(!j) (); incr j done;
        trace (); tr 2; st_s (sa.sn, sb.sn, how, -1 - i);
        check (Printf.sprintf "when its callbacks from %d on step through %s" i sb.sn) sa r;
        check (Printf.sprintf "stepped by the callbacks of %s from %d on" sa.sn i) sb (ob ())
      done)) bs) (callback_sessions ()))

(* ---------------- C25 ---------------- *)
let () = section "c25_catalogue" (fun () ->
  let lens u = List.filter (fun n -> n mod u = 0) (range 0 (pick 70 160)) @ List.map (fun n -> n / u * u) (pick [128; 255; 1024] [255; 256; 1000; 1024; 1025; 2032]) in
  List.iter (fun t ->
    case (fun () -> t.name ^ ": all lengths") (fun () ->
      List.iter (fun n -> if n >= t.minl then begin
        trace (); tr 5; st_s (t.name, n);
        let j = P_mem.t_job ~n t in eqf (fun () -> Printf.sprintf "%s, %d bytes" t.name n) j.P_mem.jwant (j.P_mem.job ());
        (* wrong lengths and damaged data too *)
        if t.iu > 1 then begin let s = pat "odd" (n + 1) in eqf (fun () -> Printf.sprintf "%s, %d bytes" t.name (n + 1)) (t.model s) (outcome (fun () -> transform_string (t.mk ()) s)) end
      end) (lens t.iu); beat ())) (transforms ());
  List.iter (fun h ->
    case (fun () -> h.hn ^ ": all lengths") (fun () ->
      List.iter (fun n ->
        trace (); tr 5; st_s (h.hn, n);
        let j = P_mem.h_job ~n h in eqf (fun () -> Printf.sprintf "%s, %d bytes" h.hn n) j.P_mem.jwant (j.P_mem.job ())) (lens h.iuh @ lens h.iuh); beat ())) (all_hashes ());
  List.iter (fun a ->
    case (fun () -> a.an ^ ": all lengths") (fun () ->
      List.iter (fun n ->
        trace (); tr 5; st_s (a.an, n);
        let j = P_mem.a_job ~n a in eqf (fun () -> Printf.sprintf "%s, %d bytes" a.an n) j.P_mem.jwant (j.P_mem.job ())) (lens a.aiu); beat ())) (auths ());
  List.iter (fun j -> case (fun () -> j.P_mem.jn) (fun () -> trace (); tr 1; st_s j.P_mem.jn; eq j.P_mem.jn j.P_mem.jwant (j.P_mem.job ()))) (P_mem.misc_jobs ());
  List.iter (fun s -> case (fun () -> s.sn) (fun () -> trace (); tr 5; st_s s.sn; check "alone" s (run_all s))) (fams "A" "da" @ fams "B" "db"))
(* a processor without an extension must never be made to execute its instructions (it would stop the program) *)
external extensions : bool -> int * int = "vw_extensions"
external itrace : (unit -> unit) -> int * int * bool = "vw_trace"
let () = section "c25_absent" (fun () ->
  let clear = int_of_string (try Sys.getenv "VW_ECX_CLEAR" with Not_found -> "0") in
  let no_aes = clear land 0x2000000 <> 0 and no_pclmul = clear land 2 <> 0 in
  let go name f =
    case (fun () -> name) (fun () ->
      trace (); st_s name; beat ();
      ignore (extensions true);
      let (n, _, fine) = itrace f in
      let (a, p) = extensions false in
      tr n;
      if n < 100 then fail "%s: only %d instructions observed" name n;
      if not fine then fail "%s: an exception was raised" name;
      if no_aes && a > 0 then fail "%s: %d AES-NI instructions executed on a processor without them" name a;
      if no_pclmul && p > 0 then fail "%s: %d PCLMULQDQ instructions executed on a processor without them" name p) in
  List.iter (fun kl -> List.iter (fun n ->
    let k = key kl in
    List.iter (fun (m, mode) -> List.iter (fun dir ->
      go (Printf.sprintf "aes%d %s %s, %d blocks" (8 * kl) m (dirname dir) n) (fun () ->
        ignore (transform_string (Cipher.aes ~mode ~iv:(ivs 16) k dir) (String.make (16 * n) 'x')))) [Cipher.Encrypt; Decrypt])
      ["CBC", Cipher.CBC; "ECB", Cipher.ECB; "CTR", Cipher.CTR; "CFB", Cipher.CFB 16; "OFB", Cipher.OFB 16];
    List.iter (fun il -> List.iter (fun hl ->
      go (Printf.sprintf "gcm, key of %d, iv of %d, header of %d, %d bytes" kl il hl (16 * n + 3)) (fun () ->
        let t = AEAD.aes_gcm ~header:(String.make hl 'h') ~iv:(ivs il) k AEAD.Encrypt in
        let c = auth_transform_string t (String.make (16 * n + 3) 'm') in
        ignore (auth_check_transform_string (AEAD.aes_gcm ~header:(String.make hl 'h') ~iv:(ivs il) k AEAD.Decrypt) c))) [0; 5; 16; 40]) [12; 16; 7];
    go (Printf.sprintf "aes_cmac, key of %d, %d blocks" kl n) (fun () -> ignore (hash_string (MAC.aes_cmac k) (String.make (16 * n) 'c')));
    go (Printf.sprintf "mac aes, key of %d, %d blocks" kl n) (fun () -> ignore (hash_string (MAC.aes k) (String.make (16 * n) 'c')))) [0; 1; 2; 3; 9]) [16; 24; 32];
  go "pseudo_rng" (fun () -> let r = Random.pseudo_rng (key 32) in ignore (Random.string r 100); r#wipe);
  go "pseudo_rng_aes_ctr" (fun () -> let r = Random.pseudo_rng_aes_ctr (key 32) in ignore (Random.string r 100); r#wipe))
let () = section "c25_zlib" (fun () ->
  let refuse n f = case (fun () -> n ^ " in a build without zlib") (fun () ->
    trace (); tr 1; st_s n;
    match f () with () -> fail "%s: accepted in a build without zlib" n | exception Error Compression_not_supported -> ()) in
  if Lazy.force P_mem.has_zlib then failwith "c25_zlib needs a build without zlib";
  let put mk s = let t : transform = mk () in t#put_string s; t#finish; ignore t#get_string in
  for level = 1 to 9 do List.iter (fun h -> List.iter (fun s ->
    refuse (Printf.sprintf "compress level %d, header %b, %d bytes" level h (String.length s)) (fun () -> put (fun () -> Zlib.compress ~level ~write_zlib_header:h ()) s)) [""; "a"; pat "z" 2000]) [true; false] done;
  List.iter (fun h -> List.iter (fun s ->
    refuse (Printf.sprintf "uncompress, header %b, %d bytes" h (String.length s)) (fun () -> put (fun () -> Zlib.uncompress ~expect_zlib_header:h ()) s)) [""; "a"; "x\156\003\000\000\000\000\001"; pat "z" 2000]) [true; false])

(* The first operations of a process: the library's global state (detection of
   the processor's features, tables built on first use) is still pristine.  Each
   history runs in a process of its own, forked before the library was used. *)
let fresh f =
  flush_all ();
  let (r, w) = Unix.pipe () in
  match Unix.fork () with
  | 0 ->
    Unix.close r;
    let m = (match f () with () -> "" | exception e -> exn_string e) in
    let m = if String.length m > 2000 then String.sub m 0 2000 else m in
    ignore (Unix.write_substring w m 0 (String.length m)); Unix._exit 0
  | pid ->
    Unix.close w;
    let b = Buffer.create 10 and t = Bytes.create 4096 in
    let rec go () = match Unix.read r t 0 4096 with 0 -> () | n -> Buffer.add_subbytes b t 0 n; go () | exception Unix.Unix_error (Unix.EINTR, _, _) -> go () in
    go (); Unix.close r;
    let rec wait () = try Unix.waitpid [] pid with Unix.Unix_error (Unix.EINTR, _, _) -> wait () in
    (match wait () with
     | _, Unix.WEXITED 0 -> ()
     | _, Unix.WEXITED n -> fail "the process exited with code %d" n
     | _, (Unix.WSIGNALED n | Unix.WSTOPPED n) -> fail "the process was killed by signal %d" n);
    if Buffer.length b > 0 then fail "%s" (Buffer.contents b)
let first_of name keep = section name (fun () ->
  let a = List.filter keep (fams "A" "da") and b = List.filter keep (fams "B" "db") in
  List.iteri (fun i sa ->
    case (fun () -> Printf.sprintf "%s as the first operation of the process, then all others" sa.sn) (fun () ->
      List.iteri (fun j sb ->
        for sched = 0 to 2 do
          st3 i j sched; trace (); tr 10;
          fresh (fun () ->
            let (pa, oa) = sa.start () and (pb, ob) = sb.start () in
            let run p k n = for i = k to n - 1 do p.(i) () done in
            let na = Array.length pa and nb = Array.length pb in
            (match sched with
             | 0 -> run pa 0 na; run pb 0 nb
             | 1 -> run pa 0 1; run pb 0 1; run pa 1 na; run pb 1 nb
             | _ -> run pa 0 1; run pb 0 nb; run pa 1 na);
            check (Printf.sprintf "(first, then %s, schedule %d)" sb.sn sched) sa (oa ());
            check (Printf.sprintf "(after %s, schedule %d)" sa.sn sched) sb (ob ()))
        done; beat ()) b)) a)
let () = first_of "c26_first" (fun _ -> true)
let () = first_of "c07_first" (fun s ->
  List.exists (fun p -> String.length s.sn >= String.length p && String.sub s.sn 0 (String.length p) = p)
    ["aes"; "des"; "3des"; "blowfish"; "gcm"; "chapoly"; "cmac"; "pseudo_rng"])
