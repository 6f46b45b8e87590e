(* C21 bounds, C22 GC timing, C23 wiping, C24 parameters *)
open E
open Objs
open Cryptokit
let uniq = ()
external arena : int -> int -> bool -> bytes = "vw_arena"
external restrict : int -> bytes -> int -> int -> unit = "vw_restrict"
external unrestrict : int -> unit = "vw_unrestrict"
external asan : unit -> bool = "vw_asan"
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)

(* ---------------- catalogue of operations on one source range ---------------- *)
(* run buf ofs len: feed the range to a fresh object and return the outcome; want s: expected outcome for contents s *)
type op = { on : string; run : bytes -> int -> int -> string; want : string -> string; lens : int list;
            noop : bytes -> int -> int -> unit (* feed an (invalid) range, then check that it had no effect *) }
let fin (t : transform) = t#finish; t#get_string
let transform_op (t : t) lens =
  { on = t.name; lens = List.filter (fun n -> n mod t.iu = 0 && n >= t.minl) lens;
    run = (fun b o l -> let x = t.mk () in outcome (fun () -> x#put_substring b o l; fin x));
    want = t.model;
    noop = (fun b o l -> let x = t.mk () in
      let s = t.gen "noop" (max t.minl (2 * t.iu)) in
      match x#put_substring b o l with
      | () -> eqf (fun () -> Printf.sprintf "%s: put_substring %d %d had an effect" t.name o l) (t.model s) (outcome (fun () -> x#put_string s; fin x))
      | exception (Invalid_argument _ | Error _ | Failure _) -> ()) }
let hash_op (h : h) lens =
  { on = h.hn; lens = List.filter (fun n -> n mod h.iuh = 0) lens;
    run = (fun b o l -> let x = h.hmk () in outcome (fun () -> x#add_substring b o l; x#result));
    want = (fun s -> ok (h.hmodel s));
    noop = (fun b o l -> let x = h.hmk () in
      let s = pat "noop" (2 * h.iuh) in
      match x#add_substring b o l with
      | () -> eqf (fun () -> Printf.sprintf "%s: add_substring %d %d had an effect" h.hn o l) (h.hmodel s) (x#add_string s; x#result)
      | exception (Invalid_argument _ | Error _ | Failure _) -> ()) }
let auth_op (a : a) lens =
  let m s = match a.amodel s with Ok (o, t) -> ok (o ^ t) | Error e -> e in
  { on = a.an; lens = List.filter (fun n -> n mod a.aiu = 0) lens;
    run = (fun b o l -> let x = a.amk () in
      outcome (fun () -> x#put_substring b o l;
        let tag = x#finish_and_get_tag in let out = x#get_string in out ^ tag));
    want = m;
    noop = (fun b o l -> let x = a.amk () in
      let s = a.agen "noop" (2 * a.aiu) in
      match x#put_substring b o l with
      | () -> eqf (fun () -> Printf.sprintf "%s: put_substring %d %d had an effect" a.an o l) (m s)
          (outcome (fun () -> x#put_string s; let tag = x#finish_and_get_tag in let out = x#get_string in out ^ tag))
      | exception (Invalid_argument _ | Error _ | Failure _) -> ()) }
let has_zlib = lazy (match Zlib.compress () with _ -> true | exception Error Compression_not_supported -> false)
let zcomp ?level s = transform_string (Zlib.compress ?level ()) s
let zlib_ts () = if not (Lazy.force has_zlib) then [] else [
  { name = "zlib/compress"; mk = (fun () -> compose (Zlib.compress ()) (Zlib.uncompress ())); model = (fun s -> ok s);
    gen = gen_any; iu = 1; minl = 0; flush = never; flen = (fun n -> n) };
  { name = "zlib/uncompress"; mk = (fun () -> Zlib.uncompress ()); model = (fun s -> match Inflate.strict ~header:false s with Ok o -> ok o | _ -> "?");
    gen = (fun l n ->
      (* a stored block: 5 bytes of overhead *)
      if n < 5 then zcomp ~level:0 "" else zcomp ~level:0 (pat l (n - 5))); iu = 1; minl = 5; flush = never; flen = (fun n -> n) } ]
let all_ops lens =
  List.map (fun t -> (transform_op t lens, t.gen)) (transforms ())
  @ List.map (fun h -> (hash_op h lens, gen_any)) (all_hashes ())
  @ List.map (fun a -> (auth_op a lens, a.agen)) (auths ())

(* ---------------- C21 ---------------- *)
(* valid ranges, with the buffer ending (or starting) at a guard page *)
let () = section "c21_source" (fun () ->
  let lens = pick [0; 1; 2; 3; 5; 7; 8; 9; 15; 16; 17; 24; 31; 32; 33; 48; 63; 64; 65; 80; 127; 128; 129; 144; 160] (range 0 200 @ [255; 256; 257; 320; 511; 512; 513; 1023; 1024; 1025; 1040; 2032]) in
  let offs = pick [0; 1; 3; 7; 8; 9] (range 0 17) in
  List.iter (fun (op, gen) ->
    List.iter (fun len ->
      case (fun () -> Printf.sprintf "%s: %d bytes, all offsets, next to guard pages" op.on len) (fun () ->
        let data = gen "c21" len in
        let data = if String.length data = len then data else Ref.take (data ^ Ref.zeros len) len in
        let want = op.want data in
        List.iter (fun off -> List.iter (fun (at_end, tail, fill) ->
          let n = off + len + tail in
          let b = arena 0 n at_end in
          Bytes.fill b 0 n (Char.chr fill);
          Bytes.blit_string data 0 b off len;
          let before = Bytes.to_string b in
          trace (); tr 3; st_s (op.on, len, off, at_end, tail);
          restrict 0 b off len;
          let got = op.run b off len in
          unrestrict 0;
          eqf (fun () -> Printf.sprintf "offset %d, %d bytes after, filled with %02x" off tail fill) want got;
          eqf (fun () -> "source buffer") before (Bytes.to_string b))
          [true, 0, 0xA5; true, 7 - ((off + len) land 7), 0x5A; false, 3, 0; false, 9, 0xFF]) offs)) op.lens)
    (all_ops lens))

let big = [min_int; min_int + 1; min_int + 15; - (1 lsl 40); - (1 lsl 32); - (1 lsl 31); -256; -17; -16; -15; -8; -2; -1;
  1 lsl 31; 1 lsl 32; (1 lsl 32) + 1; 1 lsl 40; 1 lsl 61; max_int - 16; max_int - 15; max_int - 1; max_int]
let in_range o l n = o >= 0 && l >= 0 && l <= n && o <= n - l
let raises what f = match f () with
  | _ -> fail "%s: no exception" what
  | exception (Fail _ as e) -> raise e
  | exception Stack_overflow -> fail "%s: stack overflow" what
  | exception Out_of_memory -> fail "%s: out of memory" what
  | exception _ -> ()
let ranges n = List.sort_uniq compare (big @ range (-2) (min (n + 3) 12) @ List.filter (fun x -> x >= 0) (range (n - 2) (n + 9)) @ [n + 15; n + 16; n + 17; n / 2])
let () = section "c21_bad_source" (fun () ->
  let sizes = pick [0; 1; 16; 33] [0; 1; 2; 7; 8; 15; 16; 17; 31; 33; 64; 100] in
  let check (op : op) =
    List.iter (fun n ->
      case (fun () -> Printf.sprintf "%s: all invalid ranges of a buffer of %d bytes" op.on n) (fun () ->
        let rs = ranges n in
        List.iter (fun at_end ->
        let b = arena 0 n at_end in
        let data = pat "bad" n in
        Bytes.blit_string data 0 b 0 n;
        List.iter (fun o -> List.iter (fun l ->
          if not (in_range o l n) then begin
            trace (); tr 1; st_s (op.on, n, o, l);
            restrict 0 b 0 n;
            if l > 0 then raises (Printf.sprintf "%s, buffer of %d bytes, offset %d, length %d" op.on n o l) (fun () ->
                let r = op.run b o l in
                (* the outcome of an operation that failed for another reason (data error) is not an acceptance *)
                if String.length r >= 4 && String.sub r 0 4 = "exn:" then failwith r)
            else op.noop b o l;
            unrestrict 0;
            eq "buffer" data (Bytes.to_string b)
          end) rs) rs) [true; false])) sizes in
  List.iter (fun (op, _) -> check op) (all_ops []);
  List.iter (fun t -> check (transform_op t [])) (zlib_ts ()))

(* two-range operations *)
type op2 = { o2 : string; two : unit -> (bytes -> int -> bytes -> int -> int -> unit); fixed : int (* 0: any length *);
             w2 : string -> string -> string (* source, destination before -> destination after *) }
let block_ops () =
  let mk name f bs (model : string -> string) = { o2 = name; two = (fun () -> let c : Block.block_cipher = f () in fun s so d dof _ -> c#transform s so d dof); fixed = bs; w2 = (fun s _ -> model s) } in
  List.concat_map (fun bk ->
    let bc = rbc bk bk.bkey in
    let iv = ivs bk.bbs in
    [ mk (bk.bn ^ " block encryption") (fun () -> bk.benc bk.bkey) bk.bbs bc.Ref.enc; mk (bk.bn ^ " block decryption") (fun () -> bk.bdec bk.bkey) bk.bbs bc.Ref.dec ]
    @ (if bk.bn = "aes128" || bk.bn = "des" then
       [ mk (bk.bn ^ " cbc_encrypt") (fun () -> new Block.cbc_encrypt ~iv (bk.benc bk.bkey)) bk.bbs (fun s -> Ref.cbc_enc bc iv s);
         mk (bk.bn ^ " cbc_decrypt") (fun () -> new Block.cbc_decrypt ~iv (bk.bdec bk.bkey)) bk.bbs (fun s -> Ref.cbc_dec bc iv s);
         mk (bk.bn ^ " ctr") (fun () -> new Block.ctr ~iv (bk.benc bk.bkey)) bk.bbs (fun s -> Ref.ctr bk.bbs bc iv s);
         mk (bk.bn ^ " ctr inc 3") (fun () -> new Block.ctr ~iv ~inc:3 (bk.benc bk.bkey)) bk.bbs (fun s -> Ref.ctr 3 bc iv s) ]
       @ List.concat_map (fun n -> [
         mk (Printf.sprintf "%s cfb_encrypt %d" bk.bn n) (fun () -> new Block.cfb_encrypt ~iv n (bk.benc bk.bkey)) n (fun s -> Ref.cfb true n bc iv s);
         mk (Printf.sprintf "%s cfb_decrypt %d" bk.bn n) (fun () -> new Block.cfb_decrypt ~iv n (bk.benc bk.bkey)) n (fun s -> Ref.cfb false n bc iv s);
         mk (Printf.sprintf "%s ofb %d" bk.bn n) (fun () -> new Block.ofb ~iv n (bk.benc bk.bkey)) n (fun s -> Ref.ofb n bc iv s) ]) [1; 5; bk.bbs]
     else [])) bks
let stream_ops () =
  let mk name f ks = { o2 = name; two = (fun () -> let c : Stream.stream_cipher = f () in fun s so d dof l -> c#transform s so d dof l); fixed = 0;
                       w2 = (fun s _ -> Ref.xor s (ks (String.length s))) } in
  [ mk "chacha20 transform" (fun () -> (new Stream.chacha20 ~iv:(ivs 8) (key 32) :> Stream.stream_cipher)) (Ref.chacha_keystream ~iv:(ivs 8) (key 32));
    mk "arcfour transform" (fun () -> (new Stream.arcfour (key 16) :> Stream.stream_cipher)) (Ref.rc4_keystream (key 16));
    { o2 = "xor_bytes"; two = (fun () -> xor_bytes); fixed = 0; w2 = Ref.xor };
    { o2 = "xor_string"; two = (fun () -> fun s so d dof l -> xor_string (Bytes.unsafe_to_string s) so d dof l); fixed = 0; w2 = Ref.xor } ]
let () = section "c21_two_ranges" (fun () ->
  List.iter (fun op ->
    let lens = if op.fixed > 0 then [op.fixed] else pick (range 0 20 @ [31; 32; 33; 63; 64; 65; 100; 127; 128; 129]) (range 0 140 @ [191; 192; 193; 255; 256; 257]) in
    List.iter (fun len ->
      case (fun () -> Printf.sprintf "%s: %d bytes, all offsets, next to guard pages" op.o2 len) (fun () ->
        let data = pat "c21s" len in
        for so = 0 to 9 do for dof = 0 to 9 do
          List.iter (fun (at_end, tail, fill) ->
            let sb = arena 0 (so + len + tail) at_end and db = arena 1 (dof + len + tail) at_end in
            Bytes.fill sb 0 (Bytes.length sb) (Char.chr fill); Bytes.fill db 0 (Bytes.length db) (Char.chr (fill lxor 0x33));
            Bytes.blit_string data 0 sb so len;
            let s0 = Bytes.to_string sb and d0 = Bytes.to_string db in
            trace (); tr 1; st_s (op.o2, len, so, dof, at_end, tail);
            let f = op.two () in
            restrict 0 sb so len; restrict 1 db dof len;
            f sb so db dof len;
            unrestrict 0; unrestrict 1;
            let exp = op.w2 data (String.sub d0 dof len) in
            eqf (fun () -> Printf.sprintf "destination buffer (offsets %d, %d)" so dof)
              (Ref.take d0 dof ^ exp ^ Ref.drop d0 (dof + len)) (Bytes.to_string db);
            eqf (fun () -> Printf.sprintf "source buffer (offsets %d, %d)" so dof) s0 (Bytes.to_string sb))
            [true, 0, 0xA5; true, 3, 0; false, 5, 0xFF]
        done done)) lens)
    (block_ops () @ stream_ops ()))
let () = section "c21_bad_two_ranges" (fun () ->
  let sizes = pick [0; 1; 8; 16; 40] [0; 1; 2; 7; 8; 9; 15; 16; 17; 31; 40; 64; 100] in
  List.iter (fun op ->
    List.iter (fun n -> List.iter (fun m ->
      case (fun () -> Printf.sprintf "%s: all invalid offsets in buffers of %d and %d bytes" op.o2 n m) (fun () ->
        let lens = if op.fixed > 0 then [op.fixed] else List.sort_uniq compare ([min_int; -1; 0; 1; 2; 8; 15; n - 1; n; n + 1; m; m + 1; 1 lsl 32; max_int - 8; max_int]) in
        let ro = big @ range (-1) 2 @ List.map (fun d -> n + d) [-17; -16; -15; -9; -8; -7; -2; -1; 0; 1; 8; 16]
        and rd = big @ range (-1) 2 @ List.map (fun d -> m + d) [-17; -16; -15; -9; -8; -7; -2; -1; 0; 1; 8; 16] in
        let sb = arena 0 n true and db = arena 1 m true in
        let s0 = pat "bs" n and d0 = pat "bd" m in
        Bytes.blit_string s0 0 sb 0 n;
        List.iter (fun len -> List.iter (fun so -> List.iter (fun dof ->
          if not (in_range so len n && in_range dof len m) then begin
            Bytes.blit_string d0 0 db 0 m;
            trace (); tr 1; st_s (op.o2, n, m, len, so, dof);
            let f = op.two () in
            restrict 0 sb 0 n; restrict 1 db 0 m;
            if len > 0 then raises (Printf.sprintf "%s, buffers of %d and %d bytes, offsets %d and %d, length %d" op.o2 n m so dof len) (fun () -> f sb so db dof len)
            else (match f sb so db dof len with () -> () | exception (Invalid_argument _ | Error _ | Failure _) -> ());
            unrestrict 0; unrestrict 1;
            eq "source buffer" s0 (Bytes.to_string sb);
            let d1 = Bytes.to_string db in
            if len <= 0 then eq "destination" d0 d1
            else if dof >= 0 && dof <= m then begin
              (* bytes outside [dof, dof+len) must be intact *)
              eq "destination before the range" (Ref.take d0 dof) (Ref.take d1 dof);
              let e = if len > m - dof then m else dof + len in
              eq "destination after the range" (Ref.drop d0 e) (Ref.drop d1 e)
            end else if not (in_range dof len m) && (dof >= m || (dof < 0 && dof > - len && false)) then eq "destination" d0 d1
          end) rd) ro) lens)) sizes) sizes)
    (block_ops () @ stream_ops ()))
(* generators *)
let () = section "c21_random" (fun () ->
  let rngs = [ "pseudo_rng", (fun () -> Random.pseudo_rng (key 40)); "pseudo_rng_aes_ctr", (fun () -> Random.pseudo_rng_aes_ctr (key 32));
               "secure_rng", (fun () -> Random.secure_rng); "system_rng", Random.system_rng;
               "device_rng", (fun () -> Random.device_rng "/dev/urandom"); "hardware_rng", (fun () -> Random.hardware_rng ()) ] in
  List.iter (fun (nm, mk) ->
    match mk () with
    | exception Error No_entropy_source -> ()
    | rng ->
      List.iter (fun n ->
        case (fun () -> Printf.sprintf "%s: all ranges of a buffer of %d bytes" nm n) (fun () ->
          let b = arena 0 n true in
          let all = n <= 40 in
          let d0 = pat "rng" n in
          for o = 0 to n do for l = 0 to n - o do
            if all || o < 4 || l > n - o - 4 then begin
              Bytes.blit_string d0 0 b 0 n;
              trace (); tr 1; st_s (nm, n, o, l);
              restrict 0 b o l;
              rng#random_bytes b o l;
              unrestrict 0;
              let d1 = Bytes.to_string b in
              eq "before the range" (Ref.take d0 o) (Ref.take d1 o); eq "after the range" (Ref.drop d0 (o + l)) (Ref.drop d1 (o + l));
              if l >= 16 && String.sub d0 o l = String.sub d1 o l then fail "range [%d,%d) not written" o (o + l)
            end
          done done;
          Bytes.blit_string d0 0 b 0 n;
          let rs = ranges n in
          List.iter (fun o -> List.iter (fun l ->
            if not (in_range o l n) then begin
              trace (); tr 1; st_s (nm, n, o, l);
              Bytes.blit_string d0 0 b 0 n;
              restrict 0 b 0 n;
              if l > 0 then raises (Printf.sprintf "%s, buffer of %d bytes, offset %d, length %d" nm n o l) (fun () -> rng#random_bytes b o l)
              else (match rng#random_bytes b o l with
                  | () -> eq "buffer" d0 (Bytes.to_string b)
                  | exception (Invalid_argument _ | Error _ | Failure _ | Unix.Unix_error _) ->
                    (* a refused negative length: what matters is that nothing outside the buffer was touched *)
                    if l = 0 then eq "buffer" d0 (Bytes.to_string b));
              unrestrict 0
            end) rs) rs)) (pick [0; 1; 7; 16; 33] [0; 1; 2; 7; 8; 15; 16; 17; 33; 40; 64; 100; 200; 300])) rngs)

(* ---------------- C22 ---------------- *)
external gc_arm : int -> int -> unit = "vw_gc_arm"
external gc_disarm : unit -> int = "vw_gc_disarm"
external gc_now : int -> unit = "vw_gc_now"
let gc_name = function 0 -> "minor collection" | 1 -> "full major collection" | _ -> "compaction"
(* signal-driven interruption of OCaml code at every point where the runtime polls:
   every allocation that enters the runtime, every poll of a loop or function, every blocking section *)
let sig_count = ref 0 and sig_at = ref (-1) and sig_act = ref (fun () -> ()) and sig_on = ref false
let me_pid = lazy (Unix.getpid ())
let handler _ =
  let i = !sig_count in
  incr sig_count;
  if i = !sig_at then !sig_act ();
  if !sig_on then Unix.kill (Unix.getpid ()) Sys.sigusr1
let with_polls at act f =
  sig_count := 0; sig_at := at; sig_act := act; sig_on := true;
  Sys.set_signal Sys.sigusr1 (Sys.Signal_handle handler);
  Unix.kill (Unix.getpid ()) Sys.sigusr1;
  let r = try Ok (f ()) with e -> Result.Error e in
  sig_on := false;
  (* absorb the last pending signal *)
  let rec drain k = if k > 0 then (ignore (Sys.opaque_identity (Bytes.create 300)); Unix.sleepf 0.; drain (k - 1)) in
  drain 2;
  match r with Ok v -> (v, !sig_count) | Result.Error e -> raise e

type job = { jn : string; job : unit -> string; jwant : string }
let t_job ?(n = 37) (t : t) =
  let n = max t.minl (n / t.iu * t.iu) in
  let s = t.gen "gc" n in
  { jn = t.name; jwant = t.model s;
    job = (fun () -> outcome (fun () -> let x = t.mk () in
      let k = n / 3 in
      x#put_substring (Bytes.of_string s) 0 k;
      let o1 = x#get_string in
      x#put_string (Ref.drop s k);
      x#finish;
      let r = o1 ^ x#get_string in x#wipe; r)) }
let h_job ?(n = 150) (h : h) =
  let n = n / h.iuh * h.iuh in
  let s = pat "gc" n in
  { jn = h.hn; jwant = ok (h.hmodel s);
    job = (fun () -> outcome (fun () -> let x = h.hmk () in
      let k = n / 3 in
      x#add_substring (Bytes.of_string s) 0 k; x#add_string (Ref.drop s k);
      let r = x#result in x#wipe; r)) }
let a_job ?(n = 37) (a : a) =
  let n = n / a.aiu * a.aiu in
  let s = a.agen "gc" n in
  { jn = a.an; jwant = (match a.amodel s with Ok (o, t) -> ok (o ^ t) | Error e -> e);
    job = (fun () -> outcome (fun () -> let x = a.amk () in
      let k = n / 3 in
      x#put_substring (Bytes.of_string s) 0 k;
      let o1 = x#get_string in
      x#put_string (Ref.drop s k);
      let tag = x#finish_and_get_tag in
      let r = o1 ^ x#get_string ^ tag in x#wipe; r)) }
let misc_jobs () =
  let j jn jwant f = { jn; jwant = ok jwant; job = (fun () -> outcome f) } in
  let (priv, pub) = P_pk.rsa_key 1019 1021 7 in
  let priv2 = { priv with RSA.n = priv.n } in
  let msg = P_pk.be 3 (Z.of_int 12345) in
  let dh = { DH.p = P_pk.be 8 (Z.of_int 2147483647); g = "\007"; privlen = 100 } in
  let p_dh l = DH.private_secret ~rng:(P_pk.scripted ~label:l "") dh in
  let dh_exp = (let a = p_dh "a" and b = p_dh "b" in DH.shared_secret dh a (DH.message dh b)) in
  let z1 = pat "z" 300 ^ String.make 300 'z' in
  [ j "RSA.encrypt" (P_pk.be 3 (P_pk.powmod (Z.of_int 12345) (Z.of_int 7) (Z.of_int (1019 * 1021)))) (fun () -> RSA.encrypt pub msg);
    j "RSA.decrypt_CRT" (RSA.decrypt priv2 msg) (fun () -> RSA.decrypt_CRT priv2 msg);
    j "DH" dh_exp (fun () -> let a = p_dh "a" and b = p_dh "b" in DH.shared_secret dh a (DH.message dh b));
    j "pseudo_rng" (let r = Random.pseudo_rng (key 40) in Random.string r 100) (fun () -> let r = Random.pseudo_rng (key 40) in let s = Random.string r 100 in r#wipe; s);
    j "pseudo_rng_aes_ctr" (let r = Random.pseudo_rng_aes_ctr (key 40) in Random.string r 100) (fun () -> let r = Random.pseudo_rng_aes_ctr (key 40) in let s = Random.string r 100 in r#wipe; s);
    j "derive_key" (DH.derive_key ~diversification:"d" "secret" 70) (fun () -> DH.derive_key ~diversification:"d" "secret" 70);
    j "mod_power" "\002" (fun () -> mod_power "\003" "\002" "\007"); 
    j "hash_string" (Ref.hash Ref.sha256 "abc") (fun () -> hash_string (Hash.sha256 ()) "abc");
    j "auth_check" "some" (fun () ->
      let c = auth_transform_string (AEAD.aes_gcm ~iv:(ivs 12) (key 16) AEAD.Encrypt) "hello" in
      match auth_check_transform_string (AEAD.aes_gcm ~iv:(ivs 12) (key 16) AEAD.Decrypt) c with Some "hello" -> "some" | _ -> "none");
    j "system_rng" "20" (fun () -> let r = Random.system_rng () in let s = Random.string r 20 in r#wipe; string_of_int (String.length s));
    j "chacha20 counter" (Ref.chacha_keystream ~iv:(ivs 8) ~ctr:0x1_0000_0007L (key 32) 20 ^ Ref.chacha_keystream ~iv:(ivs 12) ~ctr:7L (key 16) 20) (fun () ->
      (* the counter is a block of the young generation *)
      let c = Int64.of_int (Sys.opaque_identity 7) in
      let f iv n c = transform_string (Cipher.chacha20 ~iv:(ivs iv) ~ctr:(Sys.opaque_identity c) (key n) Cipher.Encrypt) (Ref.zeros 20) in
      f 8 32 (Int64.add c 0x1_0000_0000L) ^ f 12 16 (Int64.add c 0L));
    j "base64+blank" "abcd" (fun () -> transform_string (Base64.decode ()) "YW Jj\nZA==") ]
  @ (if Lazy.force has_zlib then [
    j "zlib compress" z1 (fun () -> let c = transform_string (Zlib.compress ()) z1 in transform_string (Zlib.uncompress ()) c);
    j "zlib error" "err" (fun () -> match transform_string (Zlib.uncompress ()) "garbage garbage" with _ -> "ok" | exception Error (Compression_error (a, b)) -> if String.length a < 100 && String.length b < 100 then "err" else "bad") ] else [])
let jobs () = List.map t_job (transforms ()) @ List.map h_job (all_hashes ()) @ List.map a_job (auths ()) @ misc_jobs ()
let () = section "c22_alloc" (fun () ->
  List.iter (fun j ->
    List.iter (fun kind ->
      case (fun () -> Printf.sprintf "%s: a %s at every allocation of the primitives" j.jn (gc_name kind)) (fun () ->
        gc_arm (-1) 0;
        let r0 = j.job () in
        let n = gc_disarm () in
        eq "without collection" j.jwant r0;
        for i = 0 to n do
          trace (); tr 1; st_s (j.jn, kind, i);
          gc_arm i kind;
          let r = j.job () in
          ignore (gc_disarm ());
          eqf (fun () -> Printf.sprintf "%s: result after a %s at allocation %d of %d" j.jn (gc_name kind) i n) j.jwant r
        done;
        beat ())) [0; 1; 2]) (jobs ()))
let () = section "c22_polls" (fun () ->
  List.iter (fun j ->
    List.iter (fun kind ->
      case (fun () -> Printf.sprintf "%s: a %s at every poll point" j.jn (gc_name kind)) (fun () ->
        let (r0, n) = with_polls (-1) (fun () -> ()) j.job in
        eq "without collection" j.jwant r0;
        for i = 0 to n do
          trace (); tr 1; st_s (j.jn, kind, i);
          let (r, _) = with_polls i (fun () -> gc_now kind) j.job in
          eqf (fun () -> Printf.sprintf "%s: result after a %s at poll point %d of %d" j.jn (gc_name kind) i n) j.jwant r
        done;
        beat ())) (pick [0] [0; 2])) (jobs ()))

(* lifetimes of objects holding C memory: all sequences of use / wipe / drop / collection over two objects *)
type life = { feed : string -> unit; stop : unit -> string; clear : unit -> unit }
let lives () =
  let h n mk (model : string -> string) = (n, (fun () -> let x : hash = mk () in { feed = x#add_string; stop = (fun () -> x#result); clear = (fun () -> x#wipe) }), model) in
  let gcm = (fun () -> let x = AEAD.aes_gcm ~header:"hdr" ~iv:(ivs 12) (key 16) AEAD.Encrypt in
    { feed = x#put_string; stop = (fun () -> let t = x#finish_and_get_tag in x#get_string ^ t); clear = (fun () -> x#wipe) }) in
  let cp = (fun () -> let x = AEAD.chacha20_poly1305 ~header:"hdr" ~iv:(ivs 12) (key 32) AEAD.Encrypt in
    { feed = x#put_string; stop = (fun () -> let t = x#finish_and_get_tag in x#get_string ^ t); clear = (fun () -> x#wipe) }) in
  [ h "sha3" (fun () -> Hash.sha3 256) (Ref.hash (Ref.sha3 256)); h "keccak" (fun () -> Hash.keccak 512) (Ref.hash (Ref.keccak 512));
    h "blake3" Hash.blake3_256 (Ref.hash (Ref.blake3 256)); h "mac blake3" (fun () -> MAC.blake3_256 (key 32)) (fun s -> Ref.hash ~key:(key 32) (Ref.blake3 256) s);
    h "sha256" Hash.sha256 (Ref.hash Ref.sha256);
    h "hmac" (fun () -> MAC.hmac_sha512 (key 20)) (Ref.hmac Ref.sha512 (key 20));
    ("gcm", gcm, (fun s -> Ref.gcm_crypt (key 16) (ivs 12) s ^ Ref.gcm_tag (key 16) (ivs 12) "hdr" (Ref.gcm_crypt (key 16) (ivs 12) s)));
    ("chapoly", cp, (fun s -> let c = Ref.chapoly_crypt (key 32) (ivs 12) s in c ^ Ref.chapoly_tag (key 32) (ivs 12) "hdr" c)) ]
  @ (if Lazy.force has_zlib then
     [ ("zlib compress", (fun () -> let x = compose (Zlib.compress ()) (Zlib.uncompress ()) in { feed = x#put_string; stop = (fun () -> x#finish; x#get_string); clear = (fun () -> x#wipe) }), (fun s -> s)) ] else [])
let () = section "c22_lifetimes" (fun () ->
  let ls = lives () in
  let depth = pick 4 6 in
  List.iter (fun (n1, mk1, m1) -> List.iter (fun (n2, mk2, m2) ->
    case (fun () -> Printf.sprintf "lifetimes of %s and %s, all sequences of %d actions" n1 n2 depth) (fun () ->
      (* actions: 0/1 use object, 2/3 wipe, 4/5 drop, 6/7 minor/compacting collection, 8/9 replace by a fresh object *)
      let count = ref 0 in
      let rec go seq d =
        if d = 0 then begin
          let objs = [| Some (mk1 ()); Some (mk2 ()) |] and fed = [| ""; "" |] and wiped = [| false; false |] in
          let mks = [| mk1; mk2 |] and ms = [| m1; m2 |] in
          let ok = ref true in
          List.iteri (fun i a ->
            let k = a land 1 in
            match a with
            | 0 | 1 -> (match objs.(k) with Some o when not wiped.(k) -> let s = pat (string_of_int i) 50 in o.feed s; fed.(k) <- fed.(k) ^ s | _ -> ok := false)
            | 2 | 3 -> (match objs.(k) with Some o -> o.clear (); wiped.(k) <- true | None -> ok := false)
            | 4 | 5 -> if objs.(k) = None then ok := false; objs.(k) <- None
            | 6 -> gc_now 0 | 7 -> gc_now 2
            | _ -> objs.(k) <- Some (mks.(k) ()); fed.(k) <- ""; wiped.(k) <- false) seq;
          trace (); tr (List.length seq); st_s (n1, n2, seq);
          (* dropped objects are only released by a collection: make sure there is one now and then *)
          incr count; if !count land 255 = 0 then (Gc.full_major (); beat ());
          for k = 0 to 1 do
            match objs.(k) with
            | Some o when not wiped.(k) ->
              eqf (fun () -> Printf.sprintf "object %d after actions %s" k (String.concat "," (List.map string_of_int seq))) (ms.(k) fed.(k)) (o.stop ())
            | _ -> ()
          done
        end else
          for a = 0 to 9 do
            (* prune: object actions only on existing objects *)
            go (seq @ [a]) (d - 1)
          done in
      if quick () && n1 > n2 then () else go [] depth; beat ())) ls) ls)

(* memory outside the OCaml heap is given back when objects are dropped, at whatever stage of their life *)
external c_memory : unit -> int = "vw_c_memory"
let () = section "c22_reclaim" (fun () ->
  let t_drop (t : t) =
    let s = t.gen "gc" (max t.minl (40 / t.iu * t.iu)) in
    let with_ f () = outcome (fun () -> f (t.mk ()); "") in
    [ t.name ^ " created and dropped", with_ (fun _ -> ());
      t.name ^ " fed and dropped", with_ (fun x -> x#put_string s; ignore x#get_string);
      t.name ^ " fed, wiped and dropped", with_ (fun x -> x#put_string s; x#wipe);
      t.name ^ " finished and dropped", with_ (fun x -> x#put_string s; x#finish; ignore x#get_string) ] in
  let h_drop (h : h) =
    let s = pat "gc" (150 / h.iuh * h.iuh) in
    let with_ f () = outcome (fun () -> f (h.hmk ()); "") in
    [ h.hn ^ " created and dropped", with_ (fun _ -> ());
      h.hn ^ " fed and dropped", with_ (fun x -> x#add_string s);
      h.hn ^ " fed, wiped and dropped", with_ (fun x -> x#add_string s; x#wipe);
      h.hn ^ " finished and dropped", with_ (fun x -> x#add_string s; ignore x#result);
      h.hn ^ " finished, wiped and dropped", with_ (fun x -> x#add_string s; ignore x#result; x#wipe) ] in
  let a_drop (a : a) =
    let s = a.agen "gc" (37 / a.aiu * a.aiu) in
    let with_ f () = outcome (fun () -> f (a.amk ()); "") in
    [ a.an ^ " created and dropped", with_ (fun _ -> ());
      a.an ^ " fed and dropped", with_ (fun x -> x#put_string s; ignore x#get_string);
      a.an ^ " fed, wiped and dropped", with_ (fun x -> x#put_string s; x#wipe);
      a.an ^ " finished and dropped", with_ (fun x -> x#put_string s; ignore x#finish_and_get_tag) ] in
  let all = List.concat_map t_drop (zlib_ts () @ transforms ()) @ List.concat_map h_drop (all_hashes ()) @ List.concat_map a_drop (auths ())
    @ List.map (fun j -> j.jn, j.job) (misc_jobs ()) in
  (* the same at later stages of their lives: longer inputs, fewer objects *)
  let later = List.concat_map (fun len ->
    List.concat_map (fun (t : t) ->
      let len = max t.minl (len / t.iu * t.iu) in
      let s = lazy (t.gen "gc" len) in
      let feed x = let s = Lazy.force s in x#put_string s; ignore x#get_string in
      [ Printf.sprintf "%s, %d bytes, dropped" t.name len, (fun () -> outcome (fun () -> feed (t.mk ()); ""));
        Printf.sprintf "%s, %d bytes, finished, dropped" t.name len, (fun () -> outcome (fun () -> let x = t.mk () in feed x; x#finish; "")) ])
      (zlib_ts () @ transforms ())
    @ List.concat_map (fun (h : h) ->
      let len = len / h.iuh * h.iuh in
      let s = lazy (pat "gc" len) in
      [ Printf.sprintf "%s, %d bytes, dropped" h.hn len, (fun () -> outcome (fun () -> (h.hmk ())#add_string (Lazy.force s); ""));
        Printf.sprintf "%s, %d bytes, finished, dropped" h.hn len, (fun () -> outcome (fun () -> let x = h.hmk () in x#add_string (Lazy.force s); ignore x#result; "")) ])
      (all_hashes ())) (pick [1025; 17 * 1024 + 1; 63 * 1024 + 1] [63; 257; 1025; 2049; 3 * 1024 + 1; 7 * 1024 + 1; 8193; 15 * 1024 + 1; 17 * 1024 + 1; 31 * 1024 + 1; 63 * 1024 + 1; 66000; 127 * 1024 + 1]) in
  let all = List.map (fun (n, f) -> n, f, pick 48 200) all @ List.map (fun (n, f) -> n, f, 10) later in
  let rounds = 4 in
  List.iter (fun (n, f, per) ->
    case (fun () -> n ^ ": its memory outside the heap is reclaimed") (fun () ->
      if not (asan ()) then begin
        let measure () = Gc.full_major (); c_memory () - 8 * (Gc.quick_stat ()).Gc.heap_words in
        let go () = for _ = 1 to per do ignore (f ()) done; trace (); tr per in
        go ();
        let rec run k m grew =
          if k = 0 then grew else begin go (); let m' = measure () in st_s (n, k); run (k - 1) m' ((m' - m) :: grew) end in
        let grew = run rounds (measure ()) [] in
        let leaks = List.for_all (fun d -> d >= 16 * per) in
        (* the runtime's own tables may have grown: look again, for longer *)
        let grew = if leaks grew then begin beat (); Gc.compact (); go (); run 12 (measure ()) [] end else grew in
        if leaks grew then
          fail "%s: memory grows with the number of objects dropped (%s bytes for %d objects each time)" n
            (String.concat ", " (List.map string_of_int (List.rev grew))) per;
        beat ()
      end)) all)

(* ---------------- C24 ---------------- *)
let refused what (e : error) f =
  match f () with
  | () -> fail "%s: accepted" what
  | exception Error e' when e' = e -> ()
  | exception (Error _ as x) -> fail "%s: refused with another error (%s)" what (exn_string x)
let accepted what f = match f () with () -> () | exception x when (match x with Fail _ -> false | _ -> true) -> fail "%s: refused (%s)" what (exn_string x)
let i f x = ignore (f x)
let maxk = 300
let key_lens_all = [16; 24; 32]
let mono x = fun k -> ignore (x k)
let () = section "c24_keys" (fun () ->
  let ctors : (string * (int -> bool) * (string -> unit)) list =
    let m l n = List.mem n l in
    let aes = m [16; 24; 32] and des = m [8] and tdes = m [16; 24] and bf n = n >= 4 && n <= 56 in
    let dirs = [Cipher.Encrypt; Cipher.Decrypt] in
    let modes = [Cipher.ECB; CBC; CFB 1; CFB 8; OFB 3; CTR; CTR_N 2] in
    List.concat_map (fun d -> List.concat_map (fun mode -> List.concat_map (fun pad ->
      let nm s = Printf.sprintf "Cipher.%s %s %s %s" s (mode_name mode) (match pad with None -> "nopad" | Some _ -> "pad") (dirname d) in
      [ nm "aes", aes, (fun k -> i (Cipher.aes ~mode ?pad k) d); nm "des", des, (fun k -> i (Cipher.des ~mode ?pad k) d);
        nm "triple_des", tdes, (fun k -> i (Cipher.triple_des ~mode ?pad k) d); nm "blowfish", bf, (fun k -> i (Cipher.blowfish ~mode ?pad k) d) ])
        [None; Some Padding.length]) modes
      @ [ "Cipher.chacha20 " ^ dirname d, m [16; 32], (fun k -> i (Cipher.chacha20 k) d);
          "Cipher.chacha20 12 " ^ dirname d, m [16; 32], (fun k -> i (Cipher.chacha20 ~iv:(ivs 12) ~ctr:5L k) d);
          "Cipher.arcfour " ^ dirname d, (fun n -> n >= 1 && n <= 256), (fun k -> i (Cipher.arcfour k) d);
          "Block.des " ^ dirname d, des, (fun k -> ignore (if d = Cipher.Encrypt then new Block.des_encrypt k else new Block.des_decrypt k)) ]) dirs
    @ [ "Block.aes_encrypt", aes, (fun k -> ignore (new Block.aes_encrypt k)); "Block.aes_decrypt", aes, (fun k -> ignore (new Block.aes_decrypt k));
        "Block.blowfish_encrypt", bf, (fun k -> ignore (new Block.blowfish_encrypt k)); "Block.blowfish_decrypt", bf, (fun k -> ignore (new Block.blowfish_decrypt k));
        "Block.triple_des_encrypt", tdes, (fun k -> ignore (new Block.triple_des_encrypt k)); "Block.triple_des_decrypt", tdes, (fun k -> ignore (new Block.triple_des_decrypt k));
        "Stream.arcfour", (fun n -> n >= 1 && n <= 256), (fun k -> ignore (new Stream.arcfour k)); "Stream.chacha20", m [16; 32], (fun k -> ignore (new Stream.chacha20 k));
        "AEAD.aes_gcm enc", aes, (fun k -> ignore (AEAD.aes_gcm ~iv:(ivs 12) k AEAD.Encrypt)); "AEAD.aes_gcm dec", aes, (fun k -> ignore (AEAD.aes_gcm ~iv:(ivs 7) ~header:"x" k AEAD.Decrypt));
        "AEAD.chacha20_poly1305 enc", m [16; 32], (fun k -> ignore (AEAD.chacha20_poly1305 ~iv:(ivs 12) k AEAD.Encrypt));
        "AEAD.chacha20_poly1305 dec", m [16; 32], (fun k -> ignore (AEAD.chacha20_poly1305 ~iv:(ivs 8) k AEAD.Decrypt));
        "MAC.blake2b512", (fun n -> n <= 64), (fun k -> ignore (MAC.blake2b512 k)); "MAC.blake2b 8", (fun n -> n <= 64), (fun k -> ignore (MAC.blake2b 8 k));
        "MAC.blake2s256", (fun n -> n <= 32), (fun k -> ignore (MAC.blake2s256 k)); "MAC.blake2s 8", (fun n -> n <= 32), (fun k -> ignore (MAC.blake2s 8 k));
        "MAC.blake3_256", m [32], (fun k -> ignore (MAC.blake3_256 k)); "MAC.blake3 8", m [32], (fun k -> ignore (MAC.blake3 8 k));
        "MAC.aes", aes, (fun k -> ignore (MAC.aes k)); "MAC.aes pad", aes, (fun k -> ignore (MAC.aes ~pad:Padding.length k)); "MAC.aes_cmac", aes, (fun k -> ignore (MAC.aes_cmac k));
        "MAC.des", des, (fun k -> ignore (MAC.des k)); "MAC.triple_des", tdes, (fun k -> ignore (MAC.triple_des k));
        "MAC.des_final_triple_des", tdes, (fun k -> ignore (MAC.des_final_triple_des k)); "MAC.siphash", m [16], (fun k -> ignore (MAC.siphash k)); "MAC.siphash128", m [16], (fun k -> ignore (MAC.siphash128 k)) ]
    @ List.map (fun (n, f, _) -> "MAC." ^ n, (fun _ -> true), (fun k -> ignore (f k))) hmacs in
  List.iter (fun (nm, okl, f) ->
    case (fun () -> Printf.sprintf "%s: every key length" nm) (fun () ->
      List.iter (fun n ->
        trace (); tr 1; st_s (nm, n);
        let k = pat "k" n in
        if okl n then accepted (Printf.sprintf "%s, key of %d bytes" nm n) (fun () -> f k)
        else refused (Printf.sprintf "%s, key of %d bytes" nm n) Wrong_key_size (fun () -> f k)) (range 0 maxk @ pick [512; 1024; 65536] [511; 512; 513; 1024; 4096; 65536; 1 lsl 20]))) ctors)
let () = section "c24_ivs" (fun () ->
  let ctors =
    List.concat_map (fun bk ->
      List.concat_map (fun mode -> List.concat_map (fun pad -> List.map (fun d ->
        Printf.sprintf "Cipher.%s %s %s %s" bk.bn (mode_name mode) (match pad with None -> "nopad" | Some _ -> "pad") (dirname d), (fun n -> n = bk.bbs), (fun iv -> ignore (bk.cipher ~mode ?pad ~iv bk.bkey d)))
        [Cipher.Encrypt; Cipher.Decrypt]) [None; Some Padding._8000]) [Cipher.CBC; CFB 1; CFB bk.bbs; OFB 1; OFB bk.bbs; CTR; CTR_N 1; CTR_N bk.bbs]
      @ (let e () = bk.benc bk.bkey in
         let b s f = (Printf.sprintf "Block.%s %s" s bk.bn, (fun n -> n = bk.bbs), f) in
         [ b "cbc_encrypt" (fun iv -> ignore (new Block.cbc_encrypt ~iv (e ()))); b "cbc_decrypt" (fun iv -> ignore (new Block.cbc_decrypt ~iv (e ())));
           b "cfb_encrypt" (fun iv -> ignore (new Block.cfb_encrypt ~iv 2 (e ()))); b "cfb_decrypt" (fun iv -> ignore (new Block.cfb_decrypt ~iv 2 (e ())));
           b "ofb" (fun iv -> ignore (new Block.ofb ~iv 2 (e ()))); b "ctr" (fun iv -> ignore (new Block.ctr ~iv (e ()))); b "ctr inc" (fun iv -> ignore (new Block.ctr ~iv ~inc:2 (e ())));
           b "mac" (fun iv -> ignore (new Block.mac ~iv (e ()))); b "mac_final_triple" (fun iv -> ignore (new Block.mac_final_triple ~iv (e ()) (e ()) (e ()))) ])) bks
    @ List.concat_map (fun bs ->
        let b s f = (Printf.sprintf "Block.%s, user-defined cipher of %d bytes" s bs, (fun n -> n = bs), f) in
        [ b "cbc_encrypt" (fun iv -> ignore (new Block.cbc_encrypt ~iv (toy_enc bs))); b "cbc_decrypt" (fun iv -> ignore (new Block.cbc_decrypt ~iv (toy_enc bs)));
          b "cfb_encrypt" (fun iv -> ignore (new Block.cfb_encrypt ~iv 1 (toy_enc bs))); b "ofb" (fun iv -> ignore (new Block.ofb ~iv 1 (toy_enc bs))); b "ctr" (fun iv -> ignore (new Block.ctr ~iv (toy_enc bs)));
          b "mac" (fun iv -> ignore (new Block.mac ~iv (toy_enc bs))) ]) [1; 3; 20]
    @ [ "MAC.aes", (fun n -> n = 16), (fun iv -> ignore (MAC.aes ~iv (key 16))); "MAC.aes pad", (fun n -> n = 16), (fun iv -> ignore (MAC.aes ~iv ~pad:Padding.length (key 16)));
        "MAC.aes_cmac", (fun n -> n = 16), (fun iv -> ignore (MAC.aes_cmac ~iv (key 16)));
        "MAC.des", (fun n -> n = 8), (fun iv -> ignore (MAC.des ~iv (key 8))); "MAC.triple_des", (fun n -> n = 8), (fun iv -> ignore (MAC.triple_des ~iv (key 24)));
        "MAC.des_final_triple_des", (fun n -> n = 8), (fun iv -> ignore (MAC.des_final_triple_des ~iv (key 16)));
        "Cipher.chacha20", (fun n -> n = 8 || n = 12), (fun iv -> ignore (Cipher.chacha20 ~iv (key 32) Cipher.Encrypt)); "Cipher.chacha20 ctr", (fun n -> n = 8 || n = 12), (fun iv -> ignore (Cipher.chacha20 ~iv ~ctr:77L (key 16) Cipher.Decrypt));
        "Stream.chacha20", (fun n -> n = 8 || n = 12), (fun iv -> ignore (new Stream.chacha20 ~iv (key 32)));
        "AEAD.chacha20_poly1305", (fun n -> n = 8 || n = 12), (fun iv -> ignore (AEAD.chacha20_poly1305 ~iv (key 32) AEAD.Encrypt));
        "AEAD.chacha20_poly1305 dec", (fun n -> n = 8 || n = 12), (fun iv -> ignore (AEAD.chacha20_poly1305 ~header:"h" ~iv (key 16) AEAD.Decrypt)) ] in
  List.iter (fun (nm, okl, f) ->
    case (fun () -> Printf.sprintf "%s: every IV length" nm) (fun () ->
      List.iter (fun n ->
        trace (); tr 1; st_s (nm, n);
        let k = pat "i" n in
        if okl n then accepted (Printf.sprintf "%s, IV of %d bytes" nm n) (fun () -> f k)
        else refused (Printf.sprintf "%s, IV of %d bytes" nm n) Wrong_IV_size (fun () -> f k)) (range 0 80 @ [255; 256; 257; 264; 272; 65544]))) ctors;
  (* Chacha20 with 12-byte IVs: counters that do not fit are refused *)
  case (fun () -> "Cipher.chacha20: counters") (fun () ->
    List.iter (fun c ->
      trace (); tr 2; st_s c;
      let okc = c >= 0L && c < 0x1_0000_0000L in
      (if okc then accepted else fun w f -> (match f () with () -> fail "%s: accepted" w | exception Error _ -> ())) (Printf.sprintf "chacha20, 12-byte IV, counter %Ld" c)
        (fun () -> ignore (Cipher.chacha20 ~iv:(ivs 12) ~ctr:c (key 32) Cipher.Encrypt));
      accepted (Printf.sprintf "chacha20, 8-byte IV, counter %Ld" c) (fun () -> ignore (Cipher.chacha20 ~iv:(ivs 8) ~ctr:c (key 32) Cipher.Encrypt)))
      ([0L; 1L; -1L; 0xFFFF_FFFFL; 0x1_0000_0000L; 0x1_0000_0001L; 0x7FFF_FFFFL; 0x8000_0000L; Int64.max_int; Int64.min_int] @ List.init 64 (fun i -> Int64.shift_left 1L i))))
let () = section "c24_sizes" (fun () ->
  let ints = range (-20) 1100 @ [2048; 4096; 65536; min_int; max_int; -256; -512; (1 lsl 32) + 256; (1 lsl 32) + 512; (1 lsl 40) + 224] in
  let m8 lo hi n = n >= lo && n <= hi && n land 7 = 0 in
  let digest = [224; 256; 384; 512] in
  let small n = n < 1 lsl 30 in
  List.iter (fun (nm, okn, f, e) ->
    case (fun () -> Printf.sprintf "%s: every size" nm) (fun () ->
      List.iter (fun n ->
        trace (); tr 1; st_s (nm, n);
        if okn n then (if small n then accepted (Printf.sprintf "%s %d" nm n) (fun () -> f n))
        else refused (Printf.sprintf "%s %d" nm n) e (fun () -> f n)) ints))
    [ "Hash.sha3", (fun n -> List.mem n digest), (fun n -> ignore (Hash.sha3 n)), Wrong_key_size;
      "Hash.keccak", (fun n -> List.mem n digest), (fun n -> ignore (Hash.keccak n)), Wrong_key_size;
      "Hash.sha2", (fun n -> List.mem n digest), (fun n -> ignore (Hash.sha2 n)), Wrong_key_size;
      "Hash.blake2b", m8 8 512, (fun n -> ignore (Hash.blake2b n)), Wrong_key_size;
      "Hash.blake2s", m8 8 256, (fun n -> ignore (Hash.blake2s n)), Wrong_key_size;
      "Hash.blake3", m8 8 max_int, (fun n -> ignore (Hash.blake3 n)), Wrong_key_size;
      "MAC.blake2b", m8 8 512, (fun n -> ignore (MAC.blake2b n (key 20))), Wrong_key_size;
      "MAC.blake2s", m8 8 256, (fun n -> ignore (MAC.blake2s n (key 20))), Wrong_key_size;
      "MAC.blake3", m8 8 max_int, (fun n -> ignore (MAC.blake3 n (key 32))), Wrong_key_size ];
  (* seeds *)
  List.iter (fun (nm, f) ->
    case (fun () -> nm ^ ": every seed length") (fun () ->
      for n = 0 to 200 do
        trace (); tr 1; st_s (nm, n);
        if n >= 16 then accepted (Printf.sprintf "%s, seed of %d bytes" nm n) (fun () -> f (pat "s" n))
        else refused (Printf.sprintf "%s, seed of %d bytes" nm n) Seed_too_short (fun () -> f (pat "s" n))
      done)) ["pseudo_rng", (fun s -> ignore (Random.pseudo_rng s)); "pseudo_rng_aes_ctr", (fun s -> ignore (Random.pseudo_rng_aes_ctr s))];
  (* moduli *)
  let script = P_pk.scripted "" in
  case (fun () -> "RSA.new_key, Paillier.new_key: every modulus size") (fun () ->
    List.iter (fun n ->
      trace (); tr 2; st_s ("rsa", n);
      let okn = n >= 32 && n land 1 = 0 in
      if okn then begin if n <= pick 150 400 then begin
        accepted (Printf.sprintf "RSA.new_key %d" n) (fun () -> ignore (RSA.new_key ~rng:script ~e:65537 n)); accepted (Printf.sprintf "Paillier.new_key %d" n) (fun () -> ignore (Paillier.new_key ~rng:script n)) end
      end else begin
        refused (Printf.sprintf "RSA.new_key %d" n) Wrong_key_size (fun () -> ignore (RSA.new_key ~rng:script n));
        refused (Printf.sprintf "Paillier.new_key %d" n) Wrong_key_size (fun () -> ignore (Paillier.new_key ~rng:script n))
      end) (range (-10) 257 @ [min_int; max_int; 513; 1023; 1025; 2047; 4097]));
  case (fun () -> "DH.new_parameters: every size") (fun () ->
    List.iter (fun n -> List.iter (fun privlen ->
      trace (); tr 1; st_s ("dh", n, privlen);
      let f () = ignore (DH.new_parameters ~rng:script ~privlen n) in
      if n >= 32 && n > privlen then (if n <= 130 then accepted (Printf.sprintf "DH.new_parameters ~privlen:%d %d" privlen n) f)
      else refused (Printf.sprintf "DH.new_parameters ~privlen:%d %d" privlen n) Wrong_key_size f)
      [1; 2; 31; 32; 33; 40; 64; 100; 128; 160; 161; 1000; max_int]) (range (-5) 260 @ [min_int]);
    List.iter (fun n -> let f () = ignore (DH.new_parameters ~rng:script n) in
      if n > 160 then accepted (Printf.sprintf "DH.new_parameters %d" n) f else refused (Printf.sprintf "DH.new_parameters %d" n) Wrong_key_size f) (range 0 200)))
let () = section "c24_chunks" (fun () ->
  let sizes = range (-300) 300 @ [min_int; max_int; 1 lsl 32; (1 lsl 32) + 1; 1024] in
  let refuse_any what f = match f () with () -> fail "%s: accepted" what | exception (Fail _ as e) -> raise e | exception _ -> () in
  List.iter (fun (nm, bs, (enc : unit -> Block.block_cipher)) ->
    case (fun () -> Printf.sprintf "%s: every chunk size" nm) (fun () ->
      List.iter (fun n ->
        trace (); tr 5; st_s (nm, n);
        List.iter (fun (c, f) ->
          if n >= 1 && n <= bs then accepted (Printf.sprintf "%s %s %d" c nm n) f else refuse_any (Printf.sprintf "%s %s %d" c nm n) f)
          [ "cfb_encrypt", (fun () -> ignore (new Block.cfb_encrypt n (enc ()))); "cfb_decrypt", (fun () -> ignore (new Block.cfb_decrypt n (enc ())));
            "ofb", (fun () -> ignore (new Block.ofb n (enc ()))); "ctr", (fun () -> ignore (new Block.ctr ~inc:n (enc ()))) ]) sizes))
    (List.map (fun bk -> (bk.bn, bk.bbs, fun () -> bk.benc bk.bkey)) bks @ List.map (fun bs -> (Printf.sprintf "user cipher of %d bytes" bs, bs, fun () -> toy_enc bs)) [1; 2; 3; 20; 255]);
  List.iter (fun bk ->
    case (fun () -> Printf.sprintf "Cipher.%s: every chunk size" bk.bn) (fun () ->
      List.iter (fun n -> List.iter (fun mode -> List.iter (fun d -> List.iter (fun pad ->
        trace (); tr 1; st_s (bk.bn, mode, d);
        let f () = ignore (bk.cipher ~mode ?pad bk.bkey d) in
        let nm = Printf.sprintf "Cipher.%s %s" bk.bn (mode_name mode) in
        if n >= 1 && n <= bk.bbs then accepted nm f else refuse_any nm f) [None; Some Padding.length]) [Cipher.Encrypt; Cipher.Decrypt]) [Cipher.CFB n; OFB n; CTR_N n]) sizes)) bks;
  case (fun () -> "mac_final_triple: every combination of block sizes") (fun () ->
    for a = 1 to 20 do for b = 1 to 20 do for c = 1 to 20 do
      trace (); tr 1; st3 a b c;
      let f () = ignore (new Block.mac_final_triple (toy_enc a) (toy_dec b) (toy_enc c)) in
      if a = b && b = c then accepted "mac_final_triple" f else refused (Printf.sprintf "mac_final_triple with block sizes %d, %d, %d" a b c) Incompatible_block_size f
    done done done);
  if Lazy.force has_zlib then case (fun () -> "Zlib.compress: every level") (fun () ->
    List.iter (fun l ->
      trace (); tr 1; st_s ("z", l);
      let f () = ignore (transform_string (Zlib.compress ~level:l ()) "abc") in
      if l >= 1 && l <= 9 then accepted (Printf.sprintf "level %d" l) f
      else if l > 9 || l < -1 then refuse_any (Printf.sprintf "level %d" l) f) (range (-40) 40 @ [255; 256; 257; 65536; -1000])))
