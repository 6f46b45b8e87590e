(* C10, C11, C29: authenticated encryption, rejection of modifications, equality tests *)
open E
open Objs
open Cryptokit
let uniq = ()
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)
let set s i v = String.mapi (fun j c -> if i = j then Char.chr (v land 255) else c) s
let flip s bit = String.mapi (fun j c -> if j = bit / 8 then Char.chr (Char.code c lxor (0x80 lsr (bit land 7))) else c) s

(* both directions against the model, through the string helpers *)
let check_aead what f crypt tag ?header ~iv k p =
  let h = Option.value ~default:"" header in
  let c = crypt k iv p in
  let t = tag k iv h c in
  trace (); tr 3;
  let (c', t') = auth_transform_string_detached (f ?header ~iv k AEAD.Encrypt) p in
  eqf (fun () -> what () ^ ": ciphertext") c c';
  eqf (fun () -> what () ^ ": tag") t t';
  let (p', t'') = auth_transform_string_detached (f ?header ~iv k AEAD.Decrypt) c in
  eqf (fun () -> what () ^ ": plaintext") p p';
  eqf (fun () -> what () ^ ": tag computed when decrypting") t t'';
  (match auth_check_transform_string (f ?header ~iv k AEAD.Decrypt) (c ^ t) with
   | Some p'' -> eqf (fun () -> what () ^ ": checked plaintext") p p''
   | None -> fail "%s: the genuine ciphertext is rejected" (what ()))

let kinds = [
  "gcm128", AEAD.aes_gcm, 16, 12, Ref.gcm_crypt, Ref.gcm_tag;
  "gcm192", AEAD.aes_gcm, 24, 12, Ref.gcm_crypt, Ref.gcm_tag;
  "gcm256", AEAD.aes_gcm, 32, 12, Ref.gcm_crypt, Ref.gcm_tag;
  "gcm128/iv16", AEAD.aes_gcm, 16, 16, Ref.gcm_crypt, Ref.gcm_tag;
  "gcm256/iv5", AEAD.aes_gcm, 32, 5, Ref.gcm_crypt, Ref.gcm_tag;
  "chapoly32/12", AEAD.chacha20_poly1305, 32, 12, Ref.chapoly_crypt, Ref.chapoly_tag;
  "chapoly32/8", AEAD.chacha20_poly1305, 32, 8, Ref.chapoly_crypt, Ref.chapoly_tag;
  "chapoly16/12", AEAD.chacha20_poly1305, 16, 12, Ref.chapoly_crypt, Ref.chapoly_tag;
  "chapoly16/8", AEAD.chacha20_poly1305, 16, 8, Ref.chapoly_crypt, Ref.chapoly_tag ]

let () = section "c10_lengths" (fun () ->
  List.iteri (fun ki (n, f, kl, il, crypt, tag) ->
    for ml = 0 to pick 68 300 do
      case (fun () -> Printf.sprintf "%s, message of %d bytes, headers of 0..%d bytes" n ml (pick 35 100)) (fun () ->
        for hl = 0 to pick 35 100 do
          st3 ki ml hl;
          check_aead (fun () -> Printf.sprintf "header of %d bytes" hl) f crypt tag ~header:(pat "h" hl) ~iv:(ivs il) (key kl) (pat "m" ml)
        done;
        check_aead (fun () -> "no header") f crypt tag ~iv:(ivs il) (key kl) (pat "m" ml))
    done;
    (* medium and long: all lengths around the internal buffer sizes; header and text at 32-bit-length scale are in c10_long *)
    List.iter (fun ml ->
      case (fun () -> Printf.sprintf "%s, message of %d bytes" n ml) (fun () ->
        st3 ki ml 999;
        check_aead (fun () -> "long message") f crypt tag ~header:(pat "h" 20) ~iv:(ivs il) (key kl) (pat "m" ml);
        check_aead (fun () -> "long header") f crypt tag ~header:(pat "m" ml) ~iv:(ivs il) (key kl) (pat "m" 33)))
      (List.concat_map (fun k -> range (k - 2) (k + 2)) (pick [128; 256; 512; 1024; 4096; 65536] [128; 192; 256; 512; 1024; 2048; 4096; 8192; 65536; 131072; 1 lsl 20])))
    kinds)

let () = section "c10_params" (fun () ->
  (* every length of GCM IV, every value of every byte of key and IV *)
  List.iter (fun kl ->
    for il = 1 to pick 300 1500 do
      case (fun () -> Printf.sprintf "gcm key %d iv of %d bytes" kl il) (fun () ->
        st3 1 kl il;
        check_aead (fun () -> "gcm") AEAD.aes_gcm Ref.gcm_crypt Ref.gcm_tag ~header:(pat "h" 5) ~iv:(pat "iv" il) (key kl) (pat "m" 37);
        check_aead (fun () -> "gcm, IV of 0xff") AEAD.aes_gcm Ref.gcm_crypt Ref.gcm_tag ~iv:(String.make il '\255') (key kl) (pat "m" 17))
    done;
    List.iter (fun il ->
      case (fun () -> Printf.sprintf "gcm key %d iv of %d bytes" kl il) (fun () ->
        st3 1 kl il;
        check_aead (fun () -> "gcm") AEAD.aes_gcm Ref.gcm_crypt Ref.gcm_tag ~header:(pat "h" 5) ~iv:(pat "iv" il) (key kl) (pat "m" 37)))
      [2047; 2048; 4095; 4096; 8191; 8192; 8193; 8208; 65535; 65536; 65537; 1 lsl 20]) [16; 24; 32];
  List.iteri (fun ki (n, f, kl, il, crypt, tag) ->
    for p = 0 to kl - 1 do
      case (fun () -> Printf.sprintf "%s, key byte %d takes all values" n p) (fun () ->
        for v = 0 to 255 do
          st3 (10 + ki) p v;
          check_aead (fun () -> Printf.sprintf "value %d" v) f crypt tag ~header:"hd" ~iv:(ivs il) (set (key kl) p v) (pat "m" 18)
        done)
    done;
    for p = 0 to il - 1 do
      case (fun () -> Printf.sprintf "%s, IV byte %d takes all values" n p) (fun () ->
        for v = 0 to 255 do
          st3 (30 + ki) p v;
          check_aead (fun () -> Printf.sprintf "value %d" v) f crypt tag ~header:"hd" ~iv:(set (ivs il) p v) (key kl) (pat "m" 33)
        done)
    done) kinds)

(* every byte value in every position of header and ciphertext, for many hash subkeys *)
let () = section "c10_data" (fun () ->
  for kn = 0 to pick 31 600 do
    List.iter (fun (n, f, kl, il, crypt, tag) ->
      case (fun () -> Printf.sprintf "%s key #%d: every byte of header and ciphertext" n kn) (fun () ->
        let k = pat (Printf.sprintf "c10d%d" kn) kl and iv = pat (Printf.sprintf "c10di%d" kn) il in
        let one hdr c =
          tr 1;
          let (p, t) = auth_transform_string_detached (f ?header:(Some hdr) ~iv k AEAD.Decrypt) c in
          eqf (fun () -> Printf.sprintf "tag for header %s ciphertext %s" (show hdr) (show c)) (tag k iv hdr c) t in
        trace ();
        let base = String.make 32 '\000' and base1 = String.make 32 '\255' in
        for p = 0 to 31 do
          for v = 0 to 255 do
            st3 kn p v;
            if p < 16 then one (set (String.make 16 '\000') p v) "";
            one "" (set base p v); if v land 15 = 0 || v land 15 = 15 then one "" (set base1 p v)
          done
        done))
      [List.nth kinds (kn mod 3); List.nth kinds (5 + kn mod 4)]
  done)

(* Poly1305: messages whose accumulator takes chosen boundary values *)
let () = section "c10_poly_edges" (fun () ->
  let p = Ref.p1305 in
  let two n = Z.shift_left Z.one n in
  let inv x = Z.invert x p in
  let m x = Z.erem x p in
  let near c l = List.map (fun d -> Z.add c (Z.of_int d)) l in
  let targets =
    List.sort_uniq Z.compare (List.map m (
      near Z.zero (range 0 12) @ near p (range (-12) (-1))
      @ List.concat_map (fun b -> near (two b) [-2; -1; 0; 1; 2; 5]) [26; 32; 44; 52; 64; 78; 88; 96; 104; 127; 128; 129]
      @ [Z.sub (two 130) (two 104); Z.sub (two 130) (two 26); Z.sub (two 128) (two 64); Z.sub (two 130) (two 88)])) in
  (* keys whose r has extreme limbs *)
  let keys =
    let limb r i = Z.to_int (Z.logand (Z.shift_right r (26 * i)) (Z.of_int 0x3ffffff)) in
    let limb44 r i = Z.to_int (Z.logand (Z.shift_right r (44 * i)) (Z.of_int 0xfffffffffff)) in
    let best = Array.make 18 (-1, "") in
    for i = 0 to pick 4000 60000 do
      let k = Digest.string (Printf.sprintf "pk%d" i) ^ Digest.string (Printf.sprintf "pl%d" i) in
      let r = Z.logand (Ref.z_of_le (Ref.take (Ref.chapoly_key k (ivs 12)) 16)) Ref.poly_clamp in
      let upd j v = if v > fst best.(j) then best.(j) <- (v, k) in
      for l = 0 to 4 do upd l (limb r l); upd (5 + l) (- (limb r l)) done;
      upd 10 (List.fold_left (fun a l -> a + limb r l) 0 [0;1;2;3;4]);
      upd 11 (List.fold_left (fun a l -> a + limb r l) 0 [1;2;3;4]);
      for l = 0 to 2 do upd (12 + l) (limb44 r l); upd (15 + l) (- (limb44 r l)) done
    done;
    List.sort_uniq compare (List.map snd (List.filter (fun (v, k) -> k <> "") (Array.to_list best)))
    @ List.map (fun i -> pat (Printf.sprintf "pp%d" i) 32) (range 0 (pick 12 200)) in
  let iv = ivs 12 in
  List.iteri (fun kn k ->
    let r = Z.logand (Ref.z_of_le (Ref.take (Ref.chapoly_key k iv) 16)) Ref.poly_clamp in
    let ri = inv r in
    let check c =
      tr 1; trace ();
      let (pl, t) = auth_transform_string_detached (AEAD.chacha20_poly1305 ~iv k AEAD.Decrypt) c in
      eqf (fun () -> "Poly1305 tag of ciphertext " ^ Ref.hex c) (Ref.chapoly_tag k iv "" c) t in
    case (fun () -> Printf.sprintf "key %s, extreme blocks" (Ref.hex k)) (fun () ->
      List.iter (fun n -> List.iter (fun b -> st3 kn n b; check (String.make n (Char.chr b))) [0; 255; 254; 1; 128])
        [1; 2; 15; 16; 17; 31; 32; 33; 48; 64; 65; 160; 320]);
    List.iteri (fun ti t ->
      case (fun () -> Printf.sprintf "key %s, accumulator %s" (Ref.hex k) (Z.format "%x" t)) (fun () ->
        (* final accumulator = t: two blocks then the length block *)
        let lenb = Z.add (Ref.z_of_le (Ref.le64s 0 ^ Ref.le64s 32)) (two 128) in
        let found = ref 0 and i = ref 0 in
        while !found < pick 4 16 && !i < 400 do
          let c1 = Ref.z_of_le (pat (Printf.sprintf "c1%d" !i) 16) in
          incr i;
          let h1 = m (Z.mul (Z.add c1 (two 128)) r) in
          (* ((h1 + b2) r + lenb) r = t *)
          let b2 = m (Z.sub (Z.mul (Z.sub (Z.mul t ri) lenb) ri) h1) in
          let c2 = Z.sub b2 (two 128) in
          if Z.sign c2 >= 0 && Z.lt c2 (two 128) then begin
            incr found; st3 kn ti !found;
            check (Ref.le_of_z 16 c1 ^ Ref.le_of_z 16 c2)
          end;
          (* accumulator after the second of three blocks = t *)
          let b2' = m (Z.sub (Z.mul t ri) h1) in
          let c2' = Z.sub b2' (two 128) in
          if Z.sign c2' >= 0 && Z.lt c2' (two 128) then begin
            st3 kn ti (100 + !found);
            check (Ref.le_of_z 16 c1 ^ Ref.le_of_z 16 c2' ^ pat "x" 16);
            check (Ref.le_of_z 16 c1 ^ Ref.le_of_z 16 c2' ^ String.make 16 '\255')
          end
        done)) targets) keys)

(* long texts and headers: lengths in bits that need more than 32 bits are reached in the thorough tier *)
let () = section "c10_long" (fun () ->
  List.iter (fun (n, f, kl, il, crypt, tag) ->
    List.iter (fun total ->
      case (fun () -> Printf.sprintf "%s, %d bytes" n total) (fun () ->
        let s = pat "long" 65536 in
        let reps = total / 65536 in
        let whole = String.concat "" (List.init reps (fun _ -> s)) in
        check_aead (fun () -> "long text") f crypt tag ~header:"x" ~iv:(ivs il) (key kl) whole))
      (pick [1 lsl 18] [1 lsl 18; 1 lsl 22; 1 lsl 24])) [List.nth kinds 0; List.nth kinds 3; List.nth kinds 5; List.nth kinds 8])

(* ---------------- C11 ---------------- *)
let describe = function None -> "rejected" | Some s -> "accepted, plaintext " ^ show s
let try_check mk x = match auth_check_transform_string (mk ()) x with
  | r -> Ok r
  | exception Error e -> Error e
(* expected outcome of auth_check_transform_string on any input, from the model *)
let expect amodel atag x =
  let l = String.length x in
  if l < atag then `Err else
    match amodel (String.sub x 0 (l - atag)) with
    | Ok (o, t) -> if t = String.sub x (l - atag) atag then `Some o else `None
    | Error _ -> `Err
let check_one name mk amodel atag x what =
  tr 1;
  match expect amodel atag x, try_check mk x with
  | `Err, Error _ -> ()
  | `None, Ok None -> ()
  | `Some o, Ok (Some o') -> eqf (fun () -> what () ^ ": plaintext") o o'
  | `Err, Ok r -> fail "%s: %s instead of raising an error" (what ()) (describe r)
  | `None, Ok r -> fail "%s: %s" (what ()) (describe r)
  | `None, Error e -> fail "%s: %s instead of None" (what ()) (exn_string (Cryptokit.Error e))
  | `Some _, Ok None -> fail "%s: a genuine message is rejected" (what ())
  | `Some _, Error e -> fail "%s: a genuine message raises %s" (what ()) (exn_string (Cryptokit.Error e))

let aead_lens () = pick (range 0 18 @ [31; 32; 33; 47; 48; 49; 63; 64; 65; 80; 100]) (range 0 130 @ [255; 256; 257])
let aead_long () = pick [128; 129; 200; 255; 256; 257; 511; 512; 513; 1024; 1040; 4096; 4111] [128; 200; 255; 256; 257; 300; 511; 512; 513; 1023; 1024; 1025; 1040; 2048; 4095; 4096; 4111; 8192; 20000]
let () = section "c11_text_and_tag" (fun () ->
  List.iteri (fun ki a ->
    if Filename.basename a.an = "dec" || String.length a.an > 8 && String.sub a.an 3 5 = "_hash" || String.length a.an > 9 && String.sub a.an 4 5 = "_hash" then
    List.iter (fun n0 ->
      let n = n0 / a.aiu * a.aiu in
      let genuine () =
        let c = a.agen "c11" n in
        match a.amodel c with Ok (o, t) -> Some (c, t) | Error _ -> None in
      let go name f = case (fun () -> Printf.sprintf "%s, %d bytes: %s" a.an n name) (fun () ->
        match genuine () with None -> () | Some (c, t) -> trace (); f c t) in
      let chk x what = check_one a.an a.amk a.amodel a.atag x what in
      go "genuine, all truncations and extensions" (fun c t ->
        let x = c ^ t in
        chk x (fun () -> "genuine");
        for i = 0 to String.length x - 1 do
          st3 ki n i;
          chk (String.sub x 0 i) (fun () -> Printf.sprintf "first %d bytes only" i);
          chk (Ref.drop x i) (fun () -> Printf.sprintf "without the first %d bytes" i);
          chk (Ref.take x i ^ Ref.drop x (i + 1)) (fun () -> Printf.sprintf "without byte %d" i);
          List.iter (fun v -> chk (Ref.take x i ^ String.make 1 (Char.chr v) ^ Ref.drop x i)
            (fun () -> Printf.sprintf "byte %d inserted at %d" v i)) [0; 128; Char.code x.[i]]
        done;
        for v = 0 to 255 do
          chk (x ^ String.make 1 (Char.chr v)) (fun () -> Printf.sprintf "byte %d appended" v);
          chk (String.make 1 (Char.chr v) ^ x) (fun () -> Printf.sprintf "byte %d prepended" v)
        done;
        List.iter (fun k -> chk (c ^ String.make k '\000' ^ t) (fun () -> Printf.sprintf "%d zero bytes appended to the text" k)) (range 1 17);
        chk (x ^ x) (fun () -> "doubled"); chk (c ^ t ^ t) (fun () -> "tag doubled"); chk (c ^ c ^ t) (fun () -> "text doubled");
        chk (t ^ c) (fun () -> "tag first");
        (* swaps of aligned pieces *)
        List.iter (fun u ->
          let m = n / u in
          for i = 0 to min m 6 - 1 do for j = i + 1 to min m 6 - 1 do
            let b k = String.sub c (k * u) u in
            let y = String.concat "" (List.map (fun k -> b (if k = i then j else if k = j then i else k)) (range 0 (m - 1))) ^ Ref.drop c (m * u) in
            chk (y ^ t) (fun () -> Printf.sprintf "pieces %d and %d of %d bytes swapped" i j u)
          done done) [1; 8; 16]);
      go "all single-bit and single-byte changes" (fun c t ->
        let x = c ^ t in
        for b = 0 to 8 * String.length x - 1 do st3 ki n (1000 + b); chk (flip x b) (fun () -> Printf.sprintf "bit %d flipped" b) done;
        for p = 0 to String.length x - 1 do
          List.iter (fun d -> chk (set x p (Char.code x.[p] + d)) (fun () -> Printf.sprintf "byte %d changed by %d" p d)) [1; 2; 3; 127; 129; 254; 255]
        done);
      if n0 = 17 || n0 = 16 then go "tag: all values of every byte, all pairs of bytes" (fun c t ->
        let l = String.length t in
        for p = 0 to l - 1 do
          for v = 0 to 255 do chk (c ^ set t p v) (fun () -> Printf.sprintf "tag byte %d = %d" p v) done;
          for q = 0 to p - 1 do
            List.iter (fun d ->
              let xorb s p = set s p (Char.code s.[p] lxor d) in
              chk (c ^ xorb (xorb t p) q) (fun () -> Printf.sprintf "tag bytes %d and %d xor %d" q p d);
              let t2 = set (set t p (Char.code t.[p] + d)) q (Char.code t.[q] - d) in
              chk (c ^ t2) (fun () -> Printf.sprintf "tag byte %d + %d, byte %d - %d" p d q d);
              if t.[p] <> t.[q] then chk (c ^ set (set t p (Char.code t.[q])) q (Char.code t.[p])) (fun () -> Printf.sprintf "tag bytes %d and %d swapped" p q))
              (if l <= 32 then [1; 128; 255] else [128])
          done;
        done;
        List.iter (fun v -> chk (c ^ String.make l (Char.chr v)) (fun () -> Printf.sprintf "tag of %d" v)) [0; 1; 255];
        chk (c ^ String.map (fun ch -> Char.chr (Char.code ch lxor 255)) t) (fun () -> "complemented tag");
        for k = 1 to l - 1 do
          chk (c ^ Ref.take t k ^ Ref.zeros (l - k)) (fun () -> Printf.sprintf "only the first %d tag bytes right" k);
          chk (c ^ Ref.zeros k ^ Ref.drop t k) (fun () -> Printf.sprintf "only the last %d tag bytes right" (l - k))
        done))
      (aead_lens ())) (auths ());
  (* longer texts: one bit of every byte, the last bit of every 16-byte block, truncations around every block *)
  List.iteri (fun ki a ->
    if Filename.basename a.an = "dec" || String.length a.an > 8 && String.sub a.an 3 5 = "_hash" || String.length a.an > 9 && String.sub a.an 4 5 = "_hash" then
    List.iter (fun n0 ->
      let n = n0 / a.aiu * a.aiu in
      case (fun () -> Printf.sprintf "%s, %d bytes: every byte changed, truncations" a.an n) (fun () ->
        let c = a.agen "c11" n in
        match a.amodel c with
        | Error _ -> ()
        | Ok (o, t) ->
          trace ();
          let chk x what = check_one a.an a.amk a.amodel a.atag x what in
          let x = c ^ t in
          chk x (fun () -> "genuine");
          (* for the AEAD ciphers rejection of anything else is the property itself; combinations that hash
             the output of a decoder may rightly accept another encoding of it: ask the model *)
          let aead = a.an.[0] <> 't' in
          let rej x what =
            if not aead then chk x what else begin
            tr 1;
            match try_check a.amk x with
            | Ok None | Error _ -> ()
            | Ok r -> fail "%s: %s" (what ()) (describe r) end in
          let step = if aead then (if n <= 1100 then 1 else if n <= 5000 then 7 else 31) else if n <= 300 then 1 else if n <= 1100 then 17 else 301 in
          let p = ref 0 in
          while !p < String.length x do
            st3 ki n !p; if !p land 63 = 0 then beat ();
            rej (flip x (8 * !p + (!p mod 8))) (fun () -> Printf.sprintf "bit %d of byte %d flipped" (!p mod 8) !p);
            p := !p + step
          done;
          for k = 1 to 40 do
            rej (Ref.take x (String.length x - k)) (fun () -> Printf.sprintf "truncated by %d" k);
            rej (Ref.drop x k) (fun () -> Printf.sprintf "without the first %d bytes" k);
            rej (Ref.take c (n - k) ^ t) (fun () -> Printf.sprintf "text truncated by %d" k);
            rej (c ^ Ref.zeros k ^ t) (fun () -> Printf.sprintf "text extended by %d zeros" k)
          done))
      (aead_long ())) (auths ()))

(* key, IV and header *)
let () = section "c11_params" (fun () ->
  List.iteri (fun ki (n, f, kl, il, crypt, tag) ->
    List.iter (fun (hl, ml) ->
      let k = key kl and iv = ivs il and h = pat "h" hl in
      let enc () = auth_transform_string (f ?header:(Some h) ~iv k AEAD.Encrypt) (pat "m" ml) in
      let rej what mk x = tr 1;
        match auth_check_transform_string (mk ()) x with
        | None -> () | Some s -> fail "%s: accepted, plaintext %s" what (show s)
        | exception e -> fail "%s: %s" what (exn_string e) in
      let acc what mk x = tr 1;
        match auth_check_transform_string (mk ()) x with
        | Some s -> eq what (pat "m" ml) s | None -> fail "%s: genuine message rejected" what in
      case (fun () -> Printf.sprintf "%s h%d m%d: key and IV bits" n hl ml) (fun () ->
        trace ();
        let x = enc () in
        acc "genuine" (fun () -> f ?header:(Some h) ~iv k AEAD.Decrypt) x;
        for b = 0 to 8 * kl - 1 do st3 ki hl b; rej (Printf.sprintf "key bit %d flipped" b) (fun () -> f ?header:(Some h) ~iv (flip k b) AEAD.Decrypt) x done;
        for b = 0 to 8 * il - 1 do st3 ki hl (1000 + b); rej (Printf.sprintf "IV bit %d flipped" b) (fun () -> f ?header:(Some h) ~iv:(flip iv b) k AEAD.Decrypt) x done;
        if f == AEAD.aes_gcm || String.length n > 3 && String.sub n 0 3 = "gcm" then
          for d = 1 to 20 do
            rej (Printf.sprintf "IV extended by %d zeros" d) (fun () -> f ?header:(Some h) ~iv:(iv ^ Ref.zeros d) k AEAD.Decrypt) x;
            if d < il then rej (Printf.sprintf "IV truncated by %d" d) (fun () -> f ?header:(Some h) ~iv:(Ref.take iv (il - d)) k AEAD.Decrypt) x
          done);
      case (fun () -> Printf.sprintf "%s h%d m%d: header" n hl ml) (fun () ->
        trace ();
        let x = enc () in
        let bad what h' = if h' <> h then rej what (fun () -> f ?header:(Some h') ~iv k AEAD.Decrypt) x in
        for b = 0 to 8 * hl - 1 do st3 ki hl (5000 + b); bad (Printf.sprintf "header bit %d flipped" b) (flip h b) done;
        for i = 0 to hl - 1 do
          bad "truncated header" (Ref.take h i); bad "header without its beginning" (Ref.drop h i);
          bad "header byte removed" (Ref.take h i ^ Ref.drop h (i + 1)) done;
        for i = 1 to 33 do bad "header extended with zeros" (h ^ Ref.zeros i); bad "zeros before the header" (Ref.zeros i ^ h) done;
        for v = 0 to 255 do bad "header extended" (h ^ String.make 1 (Char.chr v)) done;
        if hl > 0 then rej "no header" (fun () -> f ?header:None ~iv k AEAD.Decrypt) x;
        (* moving bytes between header and text *)
        let c = Ref.take x ml and t = Ref.drop x ml in
        for i = 1 to min 17 ml do
          rej (Printf.sprintf "%d bytes of text moved to the header" i) (fun () -> f ?header:(Some (h ^ Ref.take c i)) ~iv k AEAD.Decrypt) (Ref.drop c i ^ t) done;
        for i = 1 to min 17 hl do
          rej (Printf.sprintf "%d bytes of header moved to the text" i) (fun () -> f ?header:(Some (Ref.take h (hl - i))) ~iv k AEAD.Decrypt) (Ref.drop h (hl - i) ^ c ^ t) done))
      (pick [0, 0; 0, 20; 1, 0; 13, 16; 15, 1; 16, 33; 17, 0; 20, 5; 31, 2; 32, 64; 37, 48; 48, 65; 100, 16; 256, 3]
         (List.concat_map (fun h -> List.map (fun m -> h, m) [0; 1; 15; 16; 17; 33; 64; 100]) (range 0 70 @ [100; 128; 255; 256; 257; 300]))
       @ [1025, 7])) kinds)

(* ---------------- C29 ---------------- *)
let c_eq name f what a b =
  tr 1;
  let want = String.equal a b in
  let got = f a b in
  if want <> got then fail "%s %s %s = %b (%s)" name (show a) (show b) got what
let both = [ "string_equal", (fun a b -> string_equal a b);
             "bytes_equal", (fun a b -> bytes_equal (Bytes.of_string a) (Bytes.of_string b)) ]
let () = section "c29_exact" (fun () ->
  List.iter (fun (nm, f) ->
    case (fun () -> nm ^ ": all pairs of 1-byte strings") (fun () ->
      trace ();
      for a = 0 to 255 do for b = 0 to 255 do
        st2 a b; c_eq nm f "1 byte" (String.make 1 (Char.chr a)) (String.make 1 (Char.chr b)) done done);
    for d = 0 to 255 do
      case (fun () -> Printf.sprintf "%s: 2- and 9-byte strings whose bytes differ by every pair of deltas %d,*" nm d) (fun () ->
        trace ();
        for e = 0 to 255 do
          List.iter (fun (base, p, q) ->
            let x = set base p (Char.code base.[p] lxor d) in
            let x = set x q (Char.code x.[q] lxor e) in
            st3 d e (String.length base); c_eq nm f "xor deltas" base x;
            let x = set base p (Char.code base.[p] + d) in
            let x = set x q (Char.code x.[q] + e) in
            c_eq nm f "sum deltas" base x) ["\x00\x00", 0, 1; "\x80\x7f", 1, 0; pat "nine" 9, 0, 8; pat "17" 17, 3, 16]
        done)
    done;
    (* all strings of length <= n over a small alphabet, all pairs *)
    case (fun () -> nm ^ ": all pairs of short strings over {0,1,128,255}") (fun () ->
      trace ();
      let al = ["\x00"; "\x01"; "\x80"; "\xff"] in
      let rec all n = if n = 0 then [""] else List.concat_map (fun s -> List.map (fun c -> s ^ c) al) (all (n - 1)) in
      let l = List.concat_map all (range 0 (pick 3 4)) in
      List.iter (fun a -> List.iter (fun b -> st_s (a, b); c_eq nm f "short" a b) l) l);
    for n = 0 to pick 70 300 do
      case (fun () -> Printf.sprintf "%s: length %d: every byte and bit, pairs of bits, all other lengths" nm n) (fun () ->
        trace ();
        let s = pat "eq" n in
        c_eq nm f "equal" s (String.init n (fun i -> s.[i]));
        for b = 0 to 8 * n - 1 do st2 n b; c_eq nm f "one bit" s (flip s b) done;
        for p = 0 to n - 1 do
          for q = p + 1 to n - 1 do c_eq nm f "two bits" s (flip (flip s (8 * p + 3)) (8 * q + 3)) done;
          for v = 1 to 255 do if n < 40 then c_eq nm f "one byte" s (set s p (Char.code s.[p] + v)) done
        done;
        c_eq nm f "all bytes differ by 128" s (String.map (fun c -> Char.chr (Char.code c lxor 128)) s);
        c_eq nm f "all bytes differ by 1" s (String.map (fun c -> Char.chr (Char.code c lxor 1)) s);
        for m = 0 to 300 do
          if m <> n then begin
            c_eq nm f "lengths" s (if m < n then Ref.take s m else s ^ Ref.zeros (m - n));
            c_eq nm f "lengths, zeros" (Ref.zeros n) (Ref.zeros m)
          end
        done)
    done;
    List.iter (fun n ->
      case (fun () -> Printf.sprintf "%s: %d bytes that all differ" nm n) (fun () ->
        trace ();
        (* many differences must not cancel out *)
        List.iter (fun d ->
          let a = String.make n '\000' in
          List.iter (fun k -> st3 n d k;
            c_eq nm f "k differences" a (String.init n (fun i -> if i < k then Char.chr d else '\000'))) [1; 2; 255; 256; 257; n - 1; n]) [1; 2; 16; 64; 128; 255]))
      [512; 1024; 65536]) both)

external trace_pc : (unit -> unit) -> int * int * bool = "vw_trace"
(* the runtime may add instructions of its own (collector slices): keep the shortest of several runs *)
let traced ?(want = (-1, 0)) f =
  let rec go k best =
    if k = 0 then Option.get best else begin
      Gc.minor ();
      let (n, h, o) = trace_pc f in
      if (n, h) = want then (n, h, o) else
      go (k - 1) (match best with Some (n0, _, _) when n0 <= n -> best | _ -> Some (n, h, o)) end in
  go 3 None
let () = section "c29_time" (fun () ->
  let check what variants equal =
    (* variants: closures that must execute the same instructions; warm up first *)
    List.iter (fun (_, f) -> f ()) variants; (match equal with Some f -> f () | None -> ());
    let ref_ = ref None in
    List.iter (fun (nm, f) ->
      trace (); beat ();
      let (n, h, okk) = traced ?want:(match !ref_ with Some (n, h, _) -> Some (n, h) | None -> None) f in
      tr n;
      if n < 5 then failwith "single-stepping is not available here";
      if not okk then fail "%s, %s: exception" what nm;
      match !ref_ with
      | None -> ref_ := Some (n, h, nm)
      | Some (n0, h0, nm0) ->
        if n <> n0 || h <> h0 then
          fail "%s: executes %d instructions for %s but %d (%s) for %s" what n0 nm0 n (if n = n0 then "not the same" else "different number") nm) variants;
    match equal, !ref_ with
    | Some f, Some (n0, _, _) ->
      let (n, _, _) = traced f in
      if abs (n - n0) > 40 then fail "%s: executes %d instructions when unequal, %d when equal" what n0 n
    | _ -> () in
  let sink = ref false in
  List.iter (fun n ->
    case (fun () -> Printf.sprintf "instruction traces of the equality tests on %d bytes" n) (fun () ->
      let a = pat "t" n in
      let ab = Bytes.of_string a in
      let others =
        List.concat_map (fun p -> (Printf.sprintf "a difference in bit 0 of byte %d" p, flip a (8 * p + 7))
                                   :: (if n > 20 then [] else [Printf.sprintf "a difference in all bits of byte %d" p, set a p (255 - Char.code a.[p])])) (range 0 (n - 1))
        @ ["all bytes different", String.map (fun c -> Char.chr (255 - Char.code c)) a]
        @ List.map (fun k -> Printf.sprintf "%d equal bytes then all different" k, String.mapi (fun i c -> if i < k then c else Char.chr (Char.code c lxor 0x55)) a) (if n > 20 then [1; n / 2; n - 1] else range 0 (n - 1)) in
      List.iter (fun (d, s) -> st_s (n, d)) others;
      let same = String.init n (fun i -> a.[i]) in
      if n > 0 then begin
        check "string_equal" (List.map (fun (d, s) -> d, (fun () -> sink := string_equal a s)) others) (Some (fun () -> sink := string_equal a same));
        check "bytes_equal" (List.map (fun (d, s) -> let s = Bytes.of_string s in d, (fun () -> sink := bytes_equal ab s)) others) (let b = Bytes.of_string same in Some (fun () -> sink := bytes_equal ab b));
        check "swapped string_equal" (List.map (fun (d, s) -> d, (fun () -> sink := string_equal s a)) others) None
      end))
    (pick [64; 33; 32; 1; 2; 3; 7; 8; 9; 15; 16; 17; 20; 24] (100 :: range 1 70));
  (* tag check, on an authenticated transform without any computation of its own *)
  List.iter (fun (tl, ml) ->
    case (fun () -> Printf.sprintf "instruction traces of auth_check_transform_string, tag of %d bytes, text of %d" tl ml) (fun () ->
      let tag = pat "tag" tl and msg = pat "msg" ml in
      let mk () : authenticated_transform = object
        method input_block_size = 1 method output_block_size = 1 method tag_size = tl
        method put_substring _ _ _ = () method put_string _ = () method put_char _ = () method put_byte _ = ()
        method finish_and_get_tag = String.init tl (fun i -> String.unsafe_get tag i)
        method available_output = ml method get_string = msg
        method get_substring = (Bytes.empty, 0, 0) method get_char = 'a' method get_byte = 0 method wipe = () end in
      let o = mk () in
      let res = ref None in
      let others = List.concat_map (fun p -> [Printf.sprintf "a tag wrong in byte %d" p, msg ^ flip tag (8 * p + 7)]) (range 0 (tl - 1))
        @ List.map (fun k -> Printf.sprintf "a tag right in its first %d bytes" k, msg ^ String.mapi (fun i c -> if i < k then c else Char.chr (Char.code c lxor 0x55)) tag) (range 0 (tl - 1)) in
      List.iter (fun (d, _) -> st_s (tl, ml, d)) others;
      check "auth_check_transform_string" (List.map (fun (d, s) -> d, (fun () -> res := auth_check_transform_string o s)) others) None))
    [1, 0; 4, 8; 8, 0; 16, 0; 16, 10; 16, 100; 20, 7; 32, 32; 64, 3])
