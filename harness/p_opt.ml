(* C33: optional arguments.  Every optional argument, left out, means its
   documented default; given, it has its documented effect, whichever of the
   others are given. *)
open Cryptokit
open E
open Objs

let opt b x = if b then Some x else None
let bools = [false; true]

let () = section "c33_ciphers" (fun () ->
  List.iter (fun bk ->
    let bs = bk.bbs in
    let bc () = rbc bk bk.bkey in
    let zero = Ref.zeros bs and iv = ivs bs in
    let modes = None :: List.map (fun m -> Some m) (all_modes bs) in
    List.iter (fun mode -> List.iter (fun dir -> List.iter (fun pad ->
      case (fun () -> Printf.sprintf "%s, mode %s, pad %s, %s, with and without iv" bk.bn
               (match mode with None -> "omitted" | Some m -> mode_name m) (pad_name pad) (dirname dir)) (fun () ->
        let m = Option.value ~default:Cipher.CBC mode in
        let u = mode_unit bs m in
        List.iter (fun giv ->
          let eff = if giv then iv else zero in
          for n = 0 to pick (2 * u + 1) (4 * u + 1) do
            let s = if dir = Cipher.Decrypt && pad <> No && n > 0 && n mod u = 0 then
                (let k = max 0 (n - 1 - n mod 5) in
                 match cipher_model (bc ()) m eff pad Cipher.Encrypt (pat "c33" k) with
                 | o when String.length o = n + 3 -> Ref.drop o 3
                 | _ -> pat "c33" n)
              else pat "c33" n in
            trace (); tr 1; st_s (bk.bn, mode, pad, dir, giv, n);
            eqf (fun () -> Printf.sprintf "%d bytes, iv %s" n (if giv then "given" else "omitted"))
              (cipher_model (bc ()) m eff pad dir s)
              (outcome (fun () -> transform_string (bk.cipher ?mode ?pad:(pad_arg pad) ?iv:(opt giv iv) bk.bkey dir) s))
          done) bools;
        if mode = Some Cipher.ECB then
          (* "ignored in ECB mode" *)
          let s = pat "c33" (2 * bs) in
          let want = outcome (fun () -> transform_string (bk.cipher ?mode ?pad:(pad_arg pad) bk.bkey dir) s) in
          for il = 0 to 2 * bs + 1 do
            trace (); tr 1;
            eqf (fun () -> Printf.sprintf "ECB with an iv of %d bytes" il) want
              (outcome (fun () -> transform_string (bk.cipher ?mode ?pad:(pad_arg pad) ~iv:(ivs il) bk.bkey dir) s))
          done))
      [No; Len; P8000]) [Cipher.Encrypt; Decrypt]) modes) bks)

let () = section "c33_streams" (fun () ->
  List.iter (fun kl -> List.iter (fun ivl -> List.iter (fun ctr -> List.iter (fun dir ->
    case (fun () -> Printf.sprintf "chacha20, key of %d, iv %s, ctr %s, %s" kl
             (match ivl with None -> "omitted" | Some n -> string_of_int n) (match ctr with None -> "omitted" | Some c -> Int64.to_string c) (dirname dir))
      (fun () ->
        let iv = Option.map ivs ivl and k = key kl in
        for n = 0 to pick 140 300 do
          let s = pat "c33s" n in
          let want = Ref.xor s (Ref.chacha_keystream ~iv:(Option.value ~default:(Ref.zeros 8) iv) ~ctr:(Option.value ~default:0L ctr) k n) in
          trace (); tr 2; st_s (kl, ivl, ctr, dir, n);
          eqf (fun () -> Printf.sprintf "%d bytes" n) want (transform_string (Cipher.chacha20 ?iv ?ctr k dir) s);
          let c = new Stream.chacha20 ?iv ?ctr k in
          let b = Bytes.of_string s in
          c#transform b 0 b 0 n;
          eqf (fun () -> Printf.sprintf "Stream.chacha20, %d bytes" n) want (Bytes.to_string b)
        done)) [Cipher.Encrypt; Decrypt]) ([None; Some 0L; Some 1L; Some 7L; Some 0x1234L; Some 0xFFFFFFF0L] @ (if ivl = Some 12 then [] else [Some 0x100000005L; Some 0x123456789ABCDEFL; Some (-20L)]))) [None; Some 8; Some 12]) [16; 32])

let () = section "c33_aead" (fun () ->
  List.iter (fun (n, f, kl, il, crypt, tag) ->
    List.iter (fun header ->
      case (fun () -> Printf.sprintf "%s, header %s" n (match header with None -> "omitted" | Some h -> show h)) (fun () ->
        let k = key kl and iv = ivs il in
        let h = Option.value ~default:"" header in
        for l = 0 to pick 50 140 do
          let s = pat "c33a" l in
          let c = crypt k iv s in
          trace (); tr 2; st_s (n, header, l);
          eqf (fun () -> Printf.sprintf "encryption of %d bytes" l) (c ^ tag k iv h c) (auth_transform_string (f ?header ~iv k AEAD.Encrypt) s);
          match auth_check_transform_string (f ?header ~iv k AEAD.Decrypt) (c ^ tag k iv h c) with
          | Some d -> eqf (fun () -> Printf.sprintf "decryption of %d bytes" l) s d
          | None -> fail "decryption of %d bytes refused" l
        done)) [None; Some ""; Some "\000"; Some (pat "hdr" 20)]) aead_kinds)

let () = section "c33_macs" (fun () ->
  let each name u (mk : iv:string option -> pad:Padding.scheme option -> hash) (model : string -> string -> string) =
    List.iter (fun giv -> List.iter (fun pad ->
      case (fun () -> Printf.sprintf "%s, iv %s, pad %s" name (if giv then "given" else "omitted") (pad_name pad)) (fun () ->
        for n = 0 to pick (3 * u + 1) (6 * u + 1) do
          if pad <> No || n mod u = 0 then begin
            let s = pat "c33m" n in
            trace (); tr 1; st_s (name, giv, pad, n);
            eqf (fun () -> Printf.sprintf "%d bytes" n) (model (if giv then ivs u else Ref.zeros u) (pad_model pad u s))
              (hash_string (mk ~iv:(opt giv (ivs u)) ~pad:(pad_arg pad)) s)
          end
        done)) [No; Len; P8000]) bools in
  List.iter (fun (n, f, rb, kls) -> List.iter (fun kl ->
    let bc = rb (key kl) in
    each (Printf.sprintf "%s/k%d" n kl) bc.Ref.bs (fun ~iv ~pad -> f ?iv ?pad (key kl)) (fun iv s -> Ref.cbc_mac bc iv s)) kls) cbcmacs;
  List.iter (fun kl ->
    each (Printf.sprintf "des_final_triple_des/k%d" kl) 8 (fun ~iv ~pad -> MAC.des_final_triple_des ?iv ?pad (key kl)) (fun iv s -> dftd iv (key kl) s)) [16; 24];
  List.iter (fun bk ->
    let bc = rbc bk bk.bkey in
    each ("Block.mac " ^ bk.bn) bk.bbs (fun ~iv ~pad -> new Block.mac ?iv ?pad (bk.benc bk.bkey)) (fun iv s -> Ref.cbc_mac bc iv s);
    each ("Block.mac_final_triple " ^ bk.bn) bk.bbs (fun ~iv ~pad -> new Block.mac_final_triple ?iv ?pad (bk.benc bk.bkey) (bk.bdec bk.bkey) (bk.benc bk.bkey))
      (fun iv s -> bc.Ref.enc (bc.Ref.dec (Ref.cbc_mac bc iv s)))) bks;
  List.iter (fun kl -> List.iter (fun giv ->
    case (fun () -> Printf.sprintf "aes_cmac/k%d, iv %s" kl (if giv then "given" else "omitted")) (fun () ->
      for n = 0 to pick 50 100 do
        let s = pat "c33c" n in
        trace (); tr 1; st_s (kl, giv, n);
        eqf (fun () -> Printf.sprintf "%d bytes" n) (Ref.cmac (Ref.aes (key kl)) (if giv then ivs 16 else Ref.zeros 16) s)
          (hash_string (MAC.aes_cmac ?iv:(opt giv (ivs 16)) (key kl)) s)
      done)) bools) [16; 24; 32])

(* the classes of Block *)
let () = section "c33_blocks" (fun () ->
  List.iter (fun bk ->
    let bs = bk.bbs in
    let run name u (mk : string option -> Block.block_cipher) mode dir =
      List.iter (fun giv ->
        case (fun () -> Printf.sprintf "%s %s, iv %s" bk.bn name (if giv then "given" else "omitted")) (fun () ->
          for blocks = 1 to pick 4 12 do
            let s = pat "c33b" (blocks * u) in
            let c = mk (opt giv (ivs bs)) in
            let b = Bytes.of_string s in
            for i = 0 to blocks - 1 do c#transform b (i * u) b (i * u) done;
            trace (); tr blocks; st_s (bk.bn, name, giv, blocks);
            eqf (fun () -> Printf.sprintf "%d blocks" blocks)
              (cipher_model (rbc bk bk.bkey) mode (if giv then ivs bs else Ref.zeros bs) No dir s) (ok (Bytes.to_string b))
          done)) bools in
    let e () = bk.benc bk.bkey and d () = bk.bdec bk.bkey in
    run "cbc_encrypt" bs (fun iv -> (new Block.cbc_encrypt ?iv (e ()) :> Block.block_cipher)) Cipher.CBC Cipher.Encrypt;
    run "cbc_decrypt" bs (fun iv -> (new Block.cbc_decrypt ?iv (d ()) :> Block.block_cipher)) Cipher.CBC Cipher.Decrypt;
    run "ctr" bs (fun iv -> (new Block.ctr ?iv (e ()) :> Block.block_cipher)) Cipher.CTR Cipher.Encrypt;
    for n = 1 to bs do
      run (Printf.sprintf "cfb_encrypt %d" n) n (fun iv -> (new Block.cfb_encrypt ?iv n (e ()) :> Block.block_cipher)) (Cipher.CFB n) Cipher.Encrypt;
      run (Printf.sprintf "cfb_decrypt %d" n) n (fun iv -> (new Block.cfb_decrypt ?iv n (e ()) :> Block.block_cipher)) (Cipher.CFB n) Cipher.Decrypt;
      run (Printf.sprintf "ofb %d" n) n (fun iv -> (new Block.ofb ?iv n (e ()) :> Block.block_cipher)) (Cipher.OFB n) Cipher.Encrypt;
      run (Printf.sprintf "ctr, inc %d" n) bs (fun iv -> (new Block.ctr ?iv ~inc:n (e ()) :> Block.block_cipher)) (Cipher.CTR_N n) Cipher.Encrypt
    done) bks)

let num s = Z.of_bits (String.init (String.length s) (fun i -> s.[String.length s - 1 - i]))
let () = section "c33_public_key" (fun () ->
  let counting label =
    let r = P_pk.scripted ~label "" and n = ref 0 in
    ((object method random_bytes b o l = n := !n + l; r#random_bytes b o l method wipe = () end : Random.rng), n) in
  (* RSA: the exponent asked for *)
  List.iter (fun bits -> List.iter (fun e ->
    case (fun () -> Printf.sprintf "RSA.new_key %d, e %s" bits (match e with None -> "omitted" | Some e -> string_of_int e)) (fun () ->
      trace (); tr 3; st_s (bits, e);
      let go l = let (rng, n) = counting l in let k = RSA.new_key ~rng ?e bits in if !n = 0 then fail "the given random number generator was not used"; k in
      let (priv, pub) = go "a" and (priv', pub') = go "a" and (priv2, _) = go "b" in
      eqi "size" bits pub.RSA.size;
      (match e with
       | Some e -> if Z.compare (num pub.RSA.e) (Z.of_int e) <> 0 then fail "public exponent %s" (Z.to_string (num pub.RSA.e))
       | None -> if Z.compare (num pub.RSA.e) (Z.of_int 3) < 0 then fail "public exponent %s" (Z.to_string (num pub.RSA.e)));
      (* all the randomness comes from the generator given *)
      eq "the same generator gives the same key: n" priv.RSA.n priv'.RSA.n; eq "the same generator gives the same key: e" pub.RSA.e pub'.RSA.e; eq "the same generator gives the same key: d" priv.RSA.d priv'.RSA.d;
      if priv.RSA.n = priv2.RSA.n then fail "another generator gives the same key"))
    [None; Some 3; Some 5; Some 17; Some 257; Some 65537; Some 65539; Some 1000003]) (pick [64; 128; 256] [64; 96; 128; 192; 256; 384; 512]);
  List.iter (fun bits ->
    case (fun () -> Printf.sprintf "Paillier.new_key %d and encrypt, generator given" bits) (fun () ->
      trace (); tr 4;
      let go l = let (rng, n) = counting l in let k = Paillier.new_key ~rng bits in if !n = 0 then fail "the given random number generator was not used"; k in
      let (priv, pub) = go "a" and (_, pub') = go "a" and (_, pub2) = go "b" in
      let fld o i : string = Obj.obj (Obj.field (Obj.repr o) i) in
      eq "the same generator gives the same key" (fld pub 1) (fld pub' 1);
      if fld pub 1 = fld pub2 1 then fail "another generator gives the same key";
      let enc l = let (rng, n) = counting l in let c = Paillier.encrypt ~rng pub "\005" in if !n = 0 then fail "the given random number generator was not used"; c in
      eq "same generator, same encryption" (enc "x") (enc "x");
      if enc "x" = enc "y" then fail "another generator gives the same encryption";
      (* default generator: two calls differ *)
      if Paillier.encrypt pub "\005" = Paillier.encrypt pub "\005" then fail "two encryptions of the same message are equal";
      let v = num (Paillier.decrypt priv (enc "x")) in
      if Z.to_int v <> 5 then fail "decryption gives %s" (Z.to_string v))) (pick [64; 128; 256] [64; 96; 128; 256; 512]);
  (* DH *)
  List.iter (fun bits -> List.iter (fun privlen ->
    if bits > Option.value ~default:160 privlen then
    case (fun () -> Printf.sprintf "DH.new_parameters %d, privlen %s" bits (match privlen with None -> "omitted" | Some p -> string_of_int p)) (fun () ->
      trace (); tr 4;
      let go l = let (rng, n) = counting l in let k = DH.new_parameters ~rng ?privlen bits in if !n = 0 then fail "the given random number generator was not used"; k in
      let p1 = go "a" and p2 = go "a" and p3 = go "b" in
      eqi "privlen" (Option.value ~default:160 privlen) p1.DH.privlen;
      eq "same generator: p" p1.DH.p p2.DH.p; eq "same generator: g" p1.DH.g p2.DH.g;
      if p1.DH.p = p3.DH.p then fail "another generator gives the same parameters";
      let msg l = let (rng, n) = counting l in let s = DH.private_secret ~rng p1 in
        if !n = 0 then fail "the given random number generator was not used"; DH.message p1 s in
      eq "same generator: message" (msg "x") (msg "x");
      if p1.DH.privlen >= 64 && msg "x" = msg "y" then fail "another generator gives the same secret";
      if p1.DH.privlen >= 64 && DH.message p1 (DH.private_secret p1) = DH.message p1 (DH.private_secret p1) then fail "two private secrets are equal"))
    [None; Some 16; Some 64; Some 100; Some 160]) (pick [65; 170; 256] [65; 128; 161; 170; 200; 256; 384]);
  for n = 0 to pick 100 300 do
    case (fun () -> Printf.sprintf "DH.derive_key of %d bytes, diversification omitted" n) (fun () ->
      trace (); tr 2;
      let s = pat "sec" 20 in
      eq "omitted or empty" (P_pk.derive_model "" s n) (DH.derive_key s n);
      eq "empty" (P_pk.derive_model "" s n) (DH.derive_key ~diversification:"" s n);
      eq "given" (P_pk.derive_model "div" s n) (DH.derive_key ~diversification:"div" s n))
  done)

let uniq = ()
