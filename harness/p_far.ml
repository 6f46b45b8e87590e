(* Very long ranges and very distant offsets: the lengths and positions that do
   not fit in 31 or 32 bits.  The strings are mappings whose pages are shared
   or allocated on demand, so that they cost little memory. *)
open E
open Objs
open Cryptokit
open P_mem
let uniq = ()
let huge = P_hash.huge and huge_free = P_hash.huge_free
external sparse : int -> bytes = "vw_sparse"
let g4 = 1 lsl 32
let offsets = [(1 lsl 31) - 7; 1 lsl 31; (1 lsl 31) + 3; g4 - 5; g4; g4 + 3; g4 + (1 lsl 31) + 8]
let far_len = g4 + (1 lsl 31) + 4096
let with_far f =
  let s = sparse far_len in
  match f s with () -> huge_free s 0 | exception e -> huge_free s 0; raise e

(* ---- one source range at a distant offset ---- *)
let far_source ops =
  let ops = Array.of_list ops in
  let per = 16 in
  let n = (Array.length ops + per - 1) / per in
  for g = 0 to n - 1 do
    case (fun () -> Printf.sprintf "distant source ranges, operations %d.." (g * per)) (fun () ->
      with_far (fun b ->
        for i = g * per to min (Array.length ops) (g * per + per) - 1 do
          let (op, gen) = ops.(i) in
          List.iter (fun len ->
            let data = gen "far" len in
            if String.length data = len then
            let want = op.want data in
            List.iter (fun off ->
              trace (); tr 3; st_s (op.on, len, off);
              Bytes.blit_string data 0 b off len;
              let got = op.run b off len in
              Bytes.fill b off len '\000';
              eqf (fun () -> Printf.sprintf "%s: %d bytes at offset %d" op.on len off) want got) offsets) op.lens
        done))
  done
let far_lens = [1; 16; 17; 24; 129; 160]
let () = section "c02_far" (fun () ->
  far_source (List.map (fun t -> (transform_op t far_lens, t.gen)) (transforms () @ zlib_ts ())
              @ List.map (fun a -> (auth_op a far_lens, a.agen)) (auths ())))
let () = section "c04_far" (fun () -> far_source (List.map (fun h -> (hash_op h far_lens, gen_any)) (all_hashes ())))

(* ---- two ranges ---- *)
let far_two ops =
  List.iter (fun op ->
    case (fun () -> Printf.sprintf "%s: distant source and destination ranges" op.o2) (fun () ->
      with_far (fun sb -> with_far (fun db ->
        List.iter (fun len ->
          List.iter (fun so -> List.iter (fun dof ->
            trace (); tr 1; st_s (op.o2, len, so, dof);
            let data = pat "far2" len and d0 = pat "fard" (len + 16) in
            Bytes.blit_string data 0 sb so len;
            Bytes.blit_string d0 0 db (dof - 8) (len + 16);
            let f = op.two () in
            f sb so db dof len;
            eqf (fun () -> Printf.sprintf "%s: %d bytes, offsets %d and %d" op.o2 len so dof)
              (Ref.take d0 8 ^ op.w2 data (String.sub d0 8 len) ^ Ref.drop d0 (8 + len)) (Bytes.sub_string db (dof - 8) (len + 16));
            eq "source" data (Bytes.sub_string sb so len);
            Bytes.fill sb so len '\000'; Bytes.fill db (dof - 8) (len + 16) '\000') (64 :: offsets)) (0 :: offsets))
          (if op.fixed > 0 then [op.fixed] else [1; 8; 17; 64; 100]))))) ops
let is_xor o = String.length o.o2 > 3 && String.sub o.o2 0 3 = "xor"
let () = section "c07_far" (fun () -> far_two (block_ops ()))
let () = section "c13_far" (fun () -> far_two (List.filter (fun o -> not (is_xor o)) (stream_ops ())))
let () = section "c30_far" (fun () -> far_two (List.filter is_xor (stream_ops ())))

(* ---- more than 2^32 bytes in one call ---- *)
let period = 1 lsl 18
let total = g4 + (1 lsl 20) + 1037
(* contents of the last, private period *)
let tail_of b = let o = total / period * period in (o, Bytes.sub_string b o (total - o))
let chacha_at ?iv k pos n =
  let skip = pos land 63 in
  Ref.drop (Ref.chacha_keystream ?iv ~ctr:(Int64.of_int (pos / 64)) k (n + skip)) skip
let () = section "c13_huge" (fun () ->
  let stream name mk tail_ks =
    case (fun () -> Printf.sprintf "%s: %d bytes in one call" name total) (fun () ->
      trace (); tr 3; st_s name; patience 400;
      let c : Stream.stream_cipher = mk () in
      let pt = pat "c13h" period in
      let s = huge pt total and d = huge (Ref.zeros period) total in
      c#transform s 0 d 0 5;
      c#transform s 5 d 5 (total - 5);
      beat ();
      let (o, t) = tail_of d in
      let next = Bytes.create 70 in
      c#transform (Bytes.make 70 '\000') 0 next 0 70;
      let src = Bytes.sub_string s o (total - o) in
      huge_free s period; huge_free d period;
      let ks = tail_ks o (total - o + 70) in
      eq "end of the output" (Ref.xor src (Ref.take ks (total - o))) t;
      eq "keystream that follows" (Ref.drop ks (total - o)) (Bytes.to_string next)) in
  stream "chacha20" (fun () -> (new Stream.chacha20 ~iv:(ivs 8) (key 32) :> Stream.stream_cipher)) (fun o n -> chacha_at ~iv:(ivs 8) (key 32) o n);
  stream "arcfour" (fun () -> (new Stream.arcfour (key 16) :> Stream.stream_cipher)) (fun o n ->
    Ref.rc4_at (key 16) o n))
let () = section "c30_huge" (fun () ->
  List.iter (fun (so, dof) ->
    case (fun () -> Printf.sprintf "xor of %d bytes in one call, offsets %d and %d" (total - 9) so dof) (fun () ->
      trace (); tr 1; st_s (so, dof); patience 400;
      let len = total - 9 in
      let z = pat "c30h" period in
      (* a source of zeros but for its end: the destination must change there only *)
      let s = huge (Ref.zeros period) total and d = huge z total in
      let mark = pat "mark" 100 in
      Bytes.blit_string mark 0 s (so + len - 100) 100;
      xor_bytes s so d dof len;
      let (o, t) = tail_of d in
      let first = Bytes.sub_string d 0 period in
      huge_free s period; huge_free d period;
      let exp = Ref.take z (total - o) in
      let p = dof + len - 100 - o in
      eq "end of the destination" (Ref.take exp p ^ Ref.xor (String.sub exp p 100) mark ^ Ref.drop exp (p + 100)) t;
      eq "start of the destination" z first)) [0, 0; 3, 3; 1, 6])
external sched_cyc : unit -> unit = "vw_sched_cyc"
(* entropy sources asked for more than 2^31 and 2^32 bytes: the source is endless and never delivers a zero byte *)
let () = section "c16_huge" (fun () ->
  let src = String.init 65521 (fun i -> Char.chr (1 + (i * 151 + i / 255) mod 255)) in
  List.iter (fun (s : P_rng.src) ->
    List.iter (fun (len, ofs) ->
      List.iter (fun w ->
        case (fun () -> Printf.sprintf "%s: %d bytes at %d in one request, answers %s" s.sn len ofs (String.concat ", " (List.map P_rng.ans w))) (fun () ->
          trace (); st_s (s.sn, len, ofs, w); patience 400;
          let all = ofs + len + 4096 + 5 in
          let d = huge (Ref.zeros period) all in
          let o = all / period * period in
          Bytes.fill d o (all - o) '\000';    (* the last period becomes private *)
          let r = s.smk () in
          P_rng.sched src w; sched_cyc ();
          let res = match r#random_bytes d ofs len with
            | () -> `Done
            | exception (Error Entropy_source_closed | Unix.Unix_error _) -> `Failed
            | exception e -> ignore (P_rng.sched_end ()); fail "unexpected exception %s" (exn_string e) in
          let (served, calls, _) = P_rng.sched_end () in
          tr (1 + calls); beat ();
          if s.can_close then r#wipe;
          let t = Bytes.sub_string d o (all - o) in
          huge_free d period;
          let fin = ofs + len - o in
          if res = `Failed && not (List.exists (fun a -> a < 0) w) then fail "raised although the source never failed";
          if res = `Done then begin
            if served < len then fail "returned normally although the source delivered %d bytes only" served;
            String.iteri (fun i c ->
              if i < fin && c = '\000' then fail "byte %d of %d not filled" (o + i - ofs) len) t
          end;
          String.iteri (fun i c -> if i >= fin && c <> '\000' then fail "byte %d after the range written" (i - fin)) t))
        (if quick () then [[]] else [] :: List.map (fun a -> [a]) (List.filter (fun a -> a <> 0) s.answers)))
      (pick [g4 + 1037, 3] [g4 / 2 + 1037, 3; g4 / 2, 5000; g4 - 1, 5000; g4, 5000; g4 + 1037, 3]))
    (P_rng.srcs ()))
(* the same for hardware_rng, with an emulated RDRAND that always succeeds *)
let () = section "c16_hwhuge" (fun () ->
  List.iter (fun (len, ofs) ->
    case (fun () -> Printf.sprintf "hardware_rng: %d bytes at %d in one request" len ofs) (fun () ->
      trace (); tr 1; st_s (len, ofs); patience 400;
      P_rng.rd_script "" '1';
      let r = Random.hardware_rng () in
      let all = ofs + len + 4101 in
      let d = huge (Ref.zeros period) all in
      let o = all / period * period in
      Bytes.fill d o (all - o) '\000';
      r#random_bytes d ofs len; beat ();
      let (calls, _) = P_rng.rd_end () in
      let t = Bytes.sub_string d o (all - o) in
      huge_free d period;
      if calls < len / 8 then fail "%d bytes from %d executions of RDRAND" len calls;
      let fin = ofs + len - o in
      String.iteri (fun i c -> if i >= fin && c <> '\000' then fail "byte %d after the range written" (i - fin)) t;
      let zero16 = ref 0 in
      String.iteri (fun i c ->
        if i < fin then begin
          if c = '\000' then incr zero16 else zero16 := 0;
          if !zero16 >= 8 then fail "bytes up to %d of %d not filled" (o + i - ofs) len
        end) t))
    (pick [g4 + 1037, 3] [g4 / 2 + 1037, 3; g4, 5000; g4 + 1037, 3]))
let () = section "c17_huge" (fun () ->
  List.iter (fun seed ->
  case (fun () -> Printf.sprintf "pseudo_rng: %d bytes in one request" total) (fun () ->
    trace (); tr 3; st_s 17; patience 400;
    let g = Random.pseudo_rng seed in
    let d = huge (Ref.zeros period) total in
    g#random_bytes d 0 3;
    g#random_bytes d 3 (total - 3);
    beat ();
    let next = Random.string g 70 in
    let (o, t) = tail_of d in
    huge_free d period;
    let ks = chacha_at (P_rng.seed_key seed) o (total - o + 70) in
    eq "end of the request" (Ref.take ks (total - o)) t;
    eq "next bytes" (Ref.drop ks (total - o)) next)) [pat "seed" 32; pat "seed" 16])

(* ---- headers and IVs of more than 2^32 bytes ---- *)
let tot_h = g4 + 32 + 5
let () = section "c10_huge" (fun () ->
  let zeros () = huge (Ref.zeros period) tot_h in
  let run what f =
    case (fun () -> Printf.sprintf "%s of %d zero bytes" what tot_h) (fun () ->
      trace (); tr 2; st_s what; patience 400;
      let z = zeros () in
      let r = (try Ok (f (Bytes.unsafe_to_string z)) with e -> Result.Error e) in
      huge_free z period;
      match r with Ok () -> () | Result.Error e -> raise e) in
  let txt = pat "m" 21 in
  run "Chacha20-Poly1305, header" (fun z ->
    let (k, iv) = (key 32, ivs 12) in
    let c = Ref.chapoly_crypt k iv txt in
    let pk = Ref.chapoly_key k iv in
    let r = Z.logand (Ref.z_of_le (Ref.take pk 16)) Ref.poly_clamp in
    let p = Ref.p1305 in
    (* m blocks of zeros, padded: acc = 2^128 (r + ... + r^m) *)
    let m = (tot_h + 15) / 16 in
    let acc = Z.rem (Z.mul (Z.mul (Z.shift_left Z.one 128) r)
        (Z.mul (Z.sub (Z.powm r (Z.of_int m) p) Z.one) (Z.invert (Z.sub r Z.one) p))) p in
    let acc = Z.erem acc p in
    let tag = Ref.poly1305_from pk acc (Ref.pad16 c ^ Ref.le64s tot_h ^ Ref.le64s 21) in
    let t = AEAD.chacha20_poly1305 ~header:z ~iv k AEAD.Encrypt in
    t#put_string txt;
    let got = t#finish_and_get_tag in
    eq "tag" tag got; eq "ciphertext" c t#get_string);
  run "AES-GCM, header" (fun z ->
    let (k, iv) = (key 16, ivs 12) in
    let c = Ref.gcm_crypt k iv txt in
    let bc = Ref.aes k in
    let h = bc.Ref.enc (Ref.zeros 16) in
    let tag = Ref.xor (bc.Ref.enc (Ref.gcm_j0 h iv)) (Ref.c_ghash h (Ref.pad16 c ^ Ref.be64s (8 * tot_h) ^ Ref.be64s (8 * 21))) in
    let t = AEAD.aes_gcm ~header:z ~iv k AEAD.Encrypt in
    t#put_string txt;
    let got = t#finish_and_get_tag in
    eq "tag" tag got; eq "ciphertext" c t#get_string);
  run "AES-GCM, IV" (fun z ->
    let k = key 16 in
    let bc = Ref.aes k in
    let h = bc.Ref.enc (Ref.zeros 16) in
    let j0 = Ref.c_ghash h (Ref.zeros 8 ^ Ref.be64s (8 * tot_h)) in
    let c = Ref.take (Ref.ctr 4 bc (Ref.ctr_block j0 4 1) (Ref.pad16 txt)) 21 in
    let tag = Ref.xor (bc.Ref.enc j0) (Ref.c_ghash h (Ref.pad16 c ^ Ref.be64s 0 ^ Ref.be64s (8 * 21))) in
    let t = AEAD.aes_gcm ~iv:z k AEAD.Encrypt in
    t#put_string txt;
    let got = t#finish_and_get_tag in
    eq "tag" tag got; eq "ciphertext" c t#get_string))

(* ---- long headers and IVs: every change is noticed ---- *)
let () = section "c11_long_headers" (fun () ->
  List.iter (fun (n, (mk : string -> AEAD.direction -> authenticated_transform)) ->
    List.iter (fun hl ->
      for part = 0 to 3 do
      case (fun () -> Printf.sprintf "%s of %d bytes, part %d" n hl part) (fun () ->
        trace ();
        let h = pat "h" hl in
        let x = auth_transform_string (mk h AEAD.Encrypt) "message" in
        (match auth_check_transform_string (mk h AEAD.Decrypt) x with
         | Some s -> eq "genuine" "message" s | None -> fail "genuine message rejected");
        let rej what h' = tr 1;
          match auth_check_transform_string (mk h' AEAD.Decrypt) x with
          | None -> () | Some _ -> fail "%s: accepted" what in
        let step = max 1 (hl / 1000) in
        let p = ref (part * step) in
        while !p < hl do
          st3 hl !p part; if !p land 31 = 0 then beat ();
          let b = Bytes.of_string h in
          Bytes.set b !p (Char.chr (Char.code h.[!p] lxor (1 lsl (!p mod 8))));
          rej (Printf.sprintf "bit %d of byte %d changed" (!p mod 8) !p) (Bytes.to_string b);
          p := !p + 4 * step
        done;
        for k = 1 to 20 do
          rej (Printf.sprintf "truncated by %d" k) (Ref.take h (hl - k));
          rej (Printf.sprintf "without the first %d bytes" k) (Ref.drop h k);
          rej (Printf.sprintf "extended by %d" k) (h ^ Ref.zeros k)
        done)
      done) (pick [255; 256; 257; 1024; 4096; 5003; 65541] [255; 256; 257; 511; 512; 513; 1023; 1024; 1025; 2048; 4096; 5003; 65535; 65536; 65541; 1048583]))
    [ "Chacha20-Poly1305, header", (fun h d -> AEAD.chacha20_poly1305 ~header:h ~iv:(ivs 12) (key 32) d);
      "AES-GCM, header", (fun h d -> AEAD.aes_gcm ~header:h ~iv:(ivs 12) (key 16) d);
      "AES-GCM, IV", (fun iv d -> AEAD.aes_gcm ~header:"header" ~iv (key 32) d) ])
let () = section "c11_huge" (fun () ->
  List.iter (fun (n, (mk : string -> authenticated_transform)) ->
    List.iter (fun pos ->
      case (fun () -> Printf.sprintf "%s of %d bytes, byte %d changed" n tot_h pos) (fun () ->
        trace (); tr 2; st_s (n, pos); patience 400;
        let z = huge (Ref.zeros period) tot_h in
        let tag () = let t = mk (Bytes.unsafe_to_string z) in t#put_string "message"; let r = t#finish_and_get_tag in t#get_string ^ r in
        let r = (try
          let a = tag () in beat ();
          Bytes.set z pos '\128';
          let b = tag () in
          if a = b then fail "the change goes unnoticed: same ciphertext and tag";
          Ok ()
        with e -> Result.Error e) in
        huge_free z period;
        match r with Ok () -> () | Result.Error e -> raise e))
      (pick [tot_h - 1; 1 lsl 31] [0; 1 lsl 31; (1 lsl 32) - 1; 1 lsl 32; tot_h - 1]))
    [ "Chacha20-Poly1305, header", (fun h -> AEAD.chacha20_poly1305 ~header:h ~iv:(ivs 12) (key 32) AEAD.Encrypt);
      "AES-GCM, header", (fun h -> AEAD.aes_gcm ~header:h ~iv:(ivs 12) (key 16) AEAD.Encrypt);
      "AES-GCM, IV", (fun iv -> AEAD.aes_gcm ~header:"header" ~iv (key 32) AEAD.Encrypt) ])

(* ---- compression ---- *)
let () = section "c15_huge" (fun () ->
  List.iter (fun hdr ->
    case (fun () -> Printf.sprintf "compression of %d bytes in one call, header: %b" total hdr) (fun () ->
      trace (); tr 3; st_s hdr; patience 400;
      let s = huge (Ref.zeros period) total in
      Bytes.blit_string "the end" 0 s (total - 7) 7;
      let c = Zlib.compress ~level:1 ~write_zlib_header:hdr () in
      c#put_substring s 0 total; beat ();
      c#finish;
      let z = c#get_string in
      huge_free s period;
      (* decompress piecewise, with the independent decoder's output checked by length and contents *)
      let u = Zlib.uncompress ~expect_zlib_header:hdr () in
      let n = ref 0 and last = ref "" and bad = ref false in
      let zero = Ref.zeros (1 lsl 16) in
      let drain () =
        let o = u#get_string in
        let l = String.length o in
        if l > 0 then begin
          n := !n + l;
          if !n <= total - 7 then begin
            let i = ref 0 in
            while !i < l do
              let k = min (1 lsl 16) (l - !i) in
              if (if k = 1 lsl 16 then String.sub o !i k <> zero else String.sub o !i k <> String.sub zero 0 k) then bad := true;
              i := !i + k
            done
          end;
          last := o; beat ()
        end in
      let i = ref 0 in
      while !i < String.length z do
        let k = min 4096 (String.length z - !i) in
        u#put_substring (Bytes.unsafe_of_string z) !i k; i := !i + k; tr 1; drain ()
      done;
      u#finish; drain ();
      eqi "length of the decompressed data" total !n;
      if !bad then fail "decompressed data contain bytes that are not zero";
      eq "end of the decompressed data" "the end" (let l = String.length !last in if l >= 7 then String.sub !last (l - 7) 7 else !last)))
    (pick [false] [false; true]);
  case (fun () -> Printf.sprintf "decompression of %d bytes in one call" total) (fun () ->
    trace (); tr 3; st_s "inflate"; patience 400;
    (* stored blocks, nearly all of them empty *)
    let per = 20480 * 32 in
    let blocks = String.concat "" (List.init (per / 5) (fun _ -> "\000\000\000\255\255")) in
    let data = pat "z" 300 in
    let fin_ = "\001\044\001\211\254" ^ data in
    let total = g4 / 5 * 5 + 20480 + String.length fin_ in
    let s = huge blocks total in
    Bytes.blit_string fin_ 0 s (total - String.length fin_) (String.length fin_);
    let u = Zlib.uncompress () in
    u#put_substring s 0 total;
    u#finish;
    huge_free s per;
    eq "decompressed data" data u#get_string))
