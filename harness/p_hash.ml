(* C04 C05 C06 *)
open Cryptokit
open E
open Objs
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)
let uniq l = List.sort_uniq compare l

(* feed [s] from position pos, n bytes, by method m; checks the source is left alone *)
let add (h : hash) s pos n m =
  tr 1;
  match m with
  | 0 -> h#add_string (String.sub s pos n)
  | 1 ->
    (* inside a larger buffer, at an odd offset *)
    let b = Bytes.make (n + 5) '@' in
    Bytes.blit_string s pos b 3 n;
    let before = Bytes.to_string b in
    h#add_substring b 3 n;
    if Bytes.to_string b <> before then fail "add_substring modified its source"
  | 2 -> for i = pos to pos + n - 1 do h#add_char s.[i] done
  | _ -> for i = pos to pos + n - 1 do h#add_byte (Char.code s.[i]) done

let is_blake3 h = String.length h.hn >= 6 && (String.sub h.hn 0 6 = "blake3" || String.length h.hn >= 10 && String.sub h.hn 0 10 = "mac_blake3")
let sizes h =
  let b = h.hblk in
  uniq ([0; 1; 2; 3; b / 2; b - 1; b; b + 1; 2 * b - 1; 2 * b; 2 * b + 1]
        @ pick [] [b - 2; b - 9; 3 * b; 4 * b + 1; 5] @ (if is_blake3 h then [1023; 1024; 1025; 2048] else []))
  |> List.filter (fun n -> n >= 0)

let memo : (string, string) Hashtbl.t = Hashtbl.create 1000
let model h n =
  let k = h.hn ^ string_of_int n in
  match Hashtbl.find_opt memo k with
  | Some r -> r
  | None -> let r = h.hmodel (pat "c04" n) in Hashtbl.add memo k r; r

let () = section "c04_sequences" (fun () ->
  let methods = [0; 1; 2] in
  List.iter (fun h ->
    let sz = sizes h in
    let big = pat "c04" (8 * (List.fold_left max 0 sz) + 8) in
    List.iter (fun a -> List.iter (fun ma ->
      case (fun () -> Printf.sprintf "%s: add %d (method %d), then all pairs of adds" h.hn a ma) (fun () ->
        List.iter (fun b -> List.iter (fun c ->
          let tot = a + b + c in
          if tot mod h.iuh = 0 then
          List.iter (fun (mb, mc) ->
            st_s (h.hn, a, b, c, mb); trace ();
            let o = h.hmk () in
            add o big 0 a ma; add o big a b mb; add o big (a + b) c mc;
            let r = o#result in
            o#wipe;
            eqf (fun () -> Printf.sprintf "%d+%d+%d bytes (methods %d,%d,%d)" a b c ma mb mc) (model h tot) r)
            (if quick () then [(b + c) mod 4, (b + 2 * c + 1) mod 2; 1, 0] else [0,0; 0,1; 1,0; 2,1; 3,3; 1,1; 0,2; 1,3]))
          sz) sz)) methods) sz) (all_hashes ()))

(* every pair of cut points of messages of a few lengths *)
let () = section "c04_cuts" (fun () ->
  List.iter (fun h ->
    let lens = uniq (List.map (fun n -> n / h.iuh * h.iuh) (pick [h.hblk + 3; 2 * h.hblk + 9] [h.hblk; h.hblk + 3; 2 * h.hblk; 2 * h.hblk + 9; 3 * h.hblk - 1])) in
    List.iter (fun l ->
      let s = pat "c04" l in
      for i = 0 to l do
        case (fun () -> Printf.sprintf "%s: %d bytes cut at %d and everywhere" h.hn l i) (fun () ->
          for j = i to l do
            st_s (h.hn, l, i, j); trace ();
            let o = h.hmk () in
            add o s 0 i 1; add o s i (j - i) (j land 1); add o s j (l - j) ((i + j) land 3);
            eqf (fun () -> Printf.sprintf "cuts %d,%d" i j) (model h l) o#result
          done)
      done) lens;
    (* byte by byte, and result length, for every length *)
    for l = 0 to 3 * h.hblk + 3 do
      if l mod h.iuh = 0 then
      case (fun () -> Printf.sprintf "%s: %d single bytes" h.hn l) (fun () ->
        let s = pat "c04" l in
        List.iter (fun m ->
          trace ();
          let o = h.hmk () in
          add o s 0 l m;
          eqi "hash_size" h.hsz o#hash_size;
          let r = o#result in
          eqi "length of the result" h.hsz (String.length r);
          eq "single bytes" (model h l) r) [2; 3])
    done) (all_hashes ()))

(* long messages in pieces: trees of chunks, internal buffers *)
let () = section "c04_pieces" (fun () ->
  List.iter (fun h ->
    let b3 = is_blake3 h in
    let tots = if b3 then List.concat_map (fun k -> List.map (fun d -> (1 lsl k) + d) [-1; 0; 1; 1024]) (range 11 (pick 19 21))
               else [4096; 5000; 65536; 70001] in
    List.iter (fun tot ->
      let tot = tot / h.iuh * h.iuh in
      case (fun () -> Printf.sprintf "%s: %d bytes in pieces" h.hn tot) (fun () ->
        let want = model h tot in
        let s = Bytes.unsafe_of_string (pat "c04" tot) in
        List.iter (fun (a, b) ->
          st_s (h.hn, tot, a, b); trace ();
          let o = h.hmk () in
          let i = ref 0 and k = ref 0 in
          while !i < tot do
            let n = min (tot - !i) (if !k land 1 = 0 then a else b) in
            o#add_substring s !i n; tr 1; i := !i + n; incr k
          done;
          eqf (fun () -> Printf.sprintf "pieces of %d and %d" a b) want o#result)
          ([1 lsl 22, 1; 1, 1 lsl 22; 1024, 1024; 1000, 3000; 4097, 63; 8192, 1025; 16384, 16384; tot / 2, tot; tot / 2 + 1, tot; 65536, 65537]
           @ (if b3 then [1023, 1; 1025, 1023; 2048, 4096; 3072, 1024; 3072, 3072; 7168, 1024; 15360, 1024] else []))))
      tots) (List.filter (fun h -> not (String.length h.hn > 3 && (String.sub h.hn 0 3 = "toy"))) (all_hashes ())))
(* ---------------- C05 ---------------- *)
let hid = [
  "md5", Hash.md5, Ref.md5; "sha1", Hash.sha1, Ref.sha1; "sha224", Hash.sha224, Ref.sha224;
  "sha256", Hash.sha256, Ref.sha256; "sha384", Hash.sha384, Ref.sha384; "sha512", Hash.sha512, Ref.sha512;
  "sha2-224", (fun () -> Hash.sha2 224), Ref.sha224; "sha2-256", (fun () -> Hash.sha2 256), Ref.sha256;
  "sha2-384", (fun () -> Hash.sha2 384), Ref.sha384; "sha2-512", (fun () -> Hash.sha2 512), Ref.sha512;
  "ripemd160", Hash.ripemd160, Ref.ripemd160;
  "blake2b512", Hash.blake2b512, Ref.blake2b 512; "blake2s256", Hash.blake2s256, Ref.blake2s 256;
  "blake3_256", Hash.blake3_256, Ref.blake3 256 ]
  @ List.concat_map (fun b -> [Printf.sprintf "sha3-%d" b, (fun () -> Hash.sha3 b), Ref.sha3 b;
                               Printf.sprintf "keccak-%d" b, (fun () -> Hash.keccak b), Ref.keccak b]) [224; 256; 384; 512]
(* the same message in three pieces, cut at positions that depend on the message
   (C04 enumerates all the cuts of fewer messages) *)
let in_pieces what (mk : unit -> hash) want s =
  let l = String.length s in
  if l > 0 then begin
    let c = Hashtbl.hash s + l in
    let a = c mod (l + 1) in
    let b = a + (c / 1021) mod (l - a + 1) in
    trace (); tr 3;
    let h = mk () in
    let t = Bytes.unsafe_of_string s in
    h#add_substring t 0 a; h#add_substring t a (b - a); h#add_substring t b (l - b);
    eqf (fun () -> Printf.sprintf "%s of %s (cut at %d and %d)" (what ()) (show s) a b) want h#result
  end
let chk_hash n mk id s =
  trace (); tr 1;
  let o : hash = mk () in
  eqi (n ^ " hash_size") id.Ref.out o#hash_size;
  let want = Ref.hash id s in
  eqf (fun () -> Printf.sprintf "%s of %s" n (show s)) want (hash_string o s);
  in_pieces (fun () -> n) mk want s

let () = section "c05_lengths" (fun () ->
  List.iter (fun (n, mk, id) ->
    let mx = if n = "blake3_256" then pick 5200 20000 else pick (6 * id.Ref.block + 5) (20 * id.Ref.block) in
    for l = 0 to mx do
      case (fun () -> Printf.sprintf "%s length %d" n l) (fun () ->
        st_s (n, l);
        chk_hash n mk id (pat "c05" l);
        if l <= 600 then begin
          chk_hash n mk id (Ref.zeros l); chk_hash n mk id (String.make l '\xff'); chk_hash n mk id (String.make l '\x80')
        end)
    done;
    (* sizes around powers of two *)
    List.iter (fun p -> List.iter (fun d ->
      case (fun () -> Printf.sprintf "%s length 2^%d%+d" n p d) (fun () ->
        st_s (n, p, d); chk_hash n mk id (pat "c05" ((1 lsl p) + d)))) [-1; 0; 1]) (range 11 (pick (if n = "blake3_256" then 21 else 18) 23))) hid;
  (* all digest sizes *)
  let lens b = [0; 1; 3; b - 1; b; b + 1; 2 * b; 3 * b + 5] in
  for i = 1 to 64 do
    case (fun () -> Printf.sprintf "blake2b %d bits" (8 * i)) (fun () ->
      st2 100 i;
      List.iter (fun l -> chk_hash "blake2b" (fun () -> Hash.blake2b (8 * i)) (Ref.blake2b (8 * i)) (pat "c05" l)) (lens 128))
  done;
  for i = 1 to 32 do
    case (fun () -> Printf.sprintf "blake2s %d bits" (8 * i)) (fun () ->
      st2 101 i;
      List.iter (fun l -> chk_hash "blake2s" (fun () -> Hash.blake2s (8 * i)) (Ref.blake2s (8 * i)) (pat "c05" l)) (lens 64))
  done;
  for i = 1 to pick 400 4200 do
    case (fun () -> Printf.sprintf "blake3 %d bits" (8 * i)) (fun () ->
      st2 102 i;
      List.iter (fun l -> chk_hash "blake3" (fun () -> Hash.blake3 (8 * i)) (Ref.blake3 (8 * i)) (pat "c05" l)) (lens 64 @ [1023; 1024; 1025; 2049]))
  done;
  List.iter (fun i ->
    case (fun () -> Printf.sprintf "blake3 xof %d bytes" i) (fun () ->
      chk_hash "blake3" (fun () -> Hash.blake3 (8 * i)) (Ref.blake3 (8 * i)) "abc")) (pick [65536; 100001] [65536; 100001; 20_000_003]))

let () = section "c05_bytes" (fun () ->
  (* every byte of the last and of the next to last block takes every value *)
  List.iter (fun (n, mk, id) ->
    let b = id.Ref.block in
    List.iter (fun base ->
      for p = 0 to base - 1 do
        case (fun () -> Printf.sprintf "%s %d bytes, byte %d" n base p) (fun () ->
          let s = Bytes.of_string (pat "c05b" base) in
          for v = 0 to 255 do
            Bytes.set s p (Char.chr v);
            st_s (n, base, p, v);
            chk_hash n mk id (Bytes.to_string s)
          done)
      done) (if quick () then [b - 1] else [b - 1; b; 2 * b + 3]);
    (* many unstructured messages: carries and word boundaries of the round functions *)
    for w = 0 to pick 400 20000 do
      case (fun () -> Printf.sprintf "%s message family %d" n w) (fun () ->
        for i = 0 to 9 do chk_hash n mk id (pat (Printf.sprintf "m%d.%d" w i) ((w * 7 + i * 13) mod (3 * b))) done; st_s (n, w))
    done) hid)

(* messages longer than 2^29 bytes: one huge add, and many adds *)
let distinct n = not (List.mem n ["sha2-224"; "sha2-256"; "sha2-384"; "sha2-512"])
external huge : string -> int -> bytes = "vw_huge"
external huge_free : bytes -> int -> unit = "vw_huge_free"
let huge_total = (1 lsl 32) + (1 lsl 29) + 129
let long_total = (1 lsl 29) + 73
let long_period = 256 * 1024
(* digest of [total] bytes of period [long_period]: from the reference, or, in
   the quick tier and for the longest messages, as tabulated from the reference (main.exe table) *)
let long_digest n key id total =
  match (if quick () || total > 1 lsl 30 then List.assoc_opt (n, total) Longdig.table else None) with
  | Some h -> Ref.unhex h
  | None -> Ref.hash_rep ?key id (pat "long" long_period) total
let long_list () =
  List.filter_map (fun (n, mk, id) -> if distinct n then Some (n, mk, None, id) else None) hid
  @ [ "siphash", (fun () -> MAC.siphash (key 16)), Some (key 16), Ref.sip 8;
      "mac_blake2s256", (fun () -> MAC.blake2s256 (key 32)), Some (key 32), Ref.blake2s 256 ]
let () = section "c05_long" (fun () ->
  List.iter (fun (n, mk, k, id) ->
    let some = not (List.mem n ["sha3-224"; "sha3-384"; "sha3-512"; "keccak-224"; "keccak-256"; "keccak-384"; "keccak-512"; "mac_blake2s256"; "sha224"; "sha384"]) in
    (* more than 2^32 bytes in one call, after a few bytes *)
    if some || not (quick ()) then
    List.iter (fun total ->
      case (fun () -> Printf.sprintf "%s of %d bytes, all but three in one addition" n total) (fun () ->
        trace (); st_s (n, total, true);
        let s = huge (pat "long" long_period) total in
        patience 400;
        let h : hash = mk () in
        h#add_substring s 0 3; tr 2;
        h#add_substring s 3 (total - 3);
        beat ();
        let r = h#result in
        huge_free s long_period;
        eq "digest" (long_digest n k id total) r)) (pick [huge_total] [huge_total; long_total]);
    (* many additions *)
    List.iter (fun total ->
      case (fun () -> Printf.sprintf "%s of %d bytes, many additions" n total) (fun () ->
        trace (); st_s (n, total, false);
        let h : hash = mk () in
        let s = String.concat "" (List.init 5 (fun _ -> pat "long" long_period)) in
        let i = ref 0 and k' = ref 0 in
        while !i < total do
          let m = min (total - !i) (900_003 + 65536 * (!k' land 1)) in
          let o = !i mod long_period in
          h#add_substring (Bytes.unsafe_of_string s) o m; i := !i + m; incr k'; tr 1;
          beat ()
        done;
        eq "digest" (long_digest n k id total) h#result)) (if quick () then (if not some then [] else if n = "blake2s256" then [long_total; huge_total] else [long_total]) else [long_total; huge_total])) (long_list ()))
(* long messages for MACs.  For HMAC the message is chosen so that, with the
   padded key before it, it is periodic. *)
let long_macs () =
  let keyed n mk k id = (n, mk, 0, pat "long" long_period, (fun t -> Ref.hash_rep ~key:k id (pat "long" long_period) t)) in
  List.map (fun (n, f, id) ->
    let b = id.Ref.block in
    let k = pat "hk" 20 in
    let pad x = String.map (fun c -> Char.chr (Char.code c lxor x)) (k ^ Ref.zeros (b - 20)) in
    let p = pad 0x36 ^ Ref.drop (pat "long" long_period) b in
    (n, (fun () : hash -> f k), b, p, (fun t -> Ref.hash id (pad 0x5c ^ Ref.hash_rep id p t)))) hmacs
  @ [ keyed "mac_siphash" (fun () -> MAC.siphash (key 16)) (key 16) (Ref.sip 8); keyed "mac_siphash128" (fun () -> MAC.siphash128 (key 16)) (key 16) (Ref.sip 16);
      keyed "mac_blake2b512" (fun () -> MAC.blake2b512 (key 40)) (key 40) (Ref.blake2b 512); keyed "mac_blake2s256" (fun () -> MAC.blake2s256 (key 32)) (key 32) (Ref.blake2s 256);
      keyed "mac_blake3_256" (fun () -> MAC.blake3_256 (key 32)) (key 32) (Ref.blake3 256) ]
let () = section "c06_long" (fun () ->
  List.iter (fun total ->
    List.iter (fun (n, mk, off, p, want) ->
      case (fun () -> Printf.sprintf "%s of %d bytes, %s" n (total - off) (if total = huge_total then "all but three in one addition" else "many additions")) (fun () ->
        trace (); st_s (n, total);
        let want = match (if quick () || total > 1 lsl 30 then List.assoc_opt (n, total) Longdig.table else None) with Some h -> Ref.unhex h | None -> want total in
        let h : hash = mk () in
        if total = huge_total then begin
          let s = huge p total in
          patience 400;
          h#add_substring s off 3; tr 2;
          h#add_substring s (off + 3) (total - off - 3);
          beat ();
          let r = h#result in
          huge_free s long_period;
          eq "MAC" want r
        end else begin
          let s = String.concat "" (List.init 5 (fun _ -> p)) in
          let i = ref off and k' = ref 0 in
          while !i < total do
            let m = min (total - !i) (900_003 + 65536 * (!k' land 1)) in
            h#add_substring (Bytes.unsafe_of_string s) (!i mod long_period) m; i := !i + m; incr k'; tr 1;
            beat ()
          done;
          eq "MAC" want h#result
        end)) (long_macs ())) [huge_total; long_total])
(* the table of long_digest *)
let print_table () =
  let todo = List.concat_map (fun (n, _, k, id) -> List.map (fun t -> (n, t, fun () -> Ref.hash_rep ?key:k id (pat "long" long_period) t)) [huge_total; long_total]) (long_list ())
    @ List.concat_map (fun (n, _, _, _, w) -> List.map (fun t -> (n, t, fun () -> w t)) [huge_total; long_total]) (long_macs ()) in
  let todo = List.filter (fun (n, t, _) -> not (List.mem_assoc (n, t) Longdig.table)) todo in
  let pids = List.map (fun (n, t, f) -> match Unix.fork () with
    | 0 -> Printf.printf "  (%S, %d), %S;\n%!" n t (Ref.hex (f ())); Unix._exit 0
    | p -> p) todo in
  List.iter (fun p -> ignore (Unix.waitpid [] p)) pids

(* ---------------- C06 ---------------- *)
let chk_mac what (mk : unit -> hash) sz want s =
  trace (); tr 1;
  let h = mk () in
  eqi (what () ^ " hash_size") sz h#hash_size;
  eqf (fun () -> Printf.sprintf "%s of %s" (what ()) (show s)) want (hash_string h s);
  in_pieces what mk want s
let () = section "c06_hmac" (fun () ->
  List.iter (fun (n, f, id) ->
    let b = id.Ref.block in
    for kl = 0 to 2 * b + 5 do
      case (fun () -> Printf.sprintf "%s key length %d" n kl) (fun () ->
        let k = pat "hk" kl in
        List.iter (fun l ->
          st_s (n, kl, l);
          let s = pat "c06" l in
          chk_mac (fun () -> Printf.sprintf "%s key %d" n kl) (fun () -> f k) id.Ref.out (Ref.hmac id k s) s)
          (uniq [0; 1; 20; b - 9; b - 8; b - 1; b; b + 1; 2 * b; 300]))
    done;
    (* every byte of the key *)
    List.iter (fun kl ->
      for p = 0 to kl - 1 do
        case (fun () -> Printf.sprintf "%s key length %d byte %d" n kl p) (fun () ->
          for v = 0 to 255 do
            if v mod (pick 5 1) = 0 then begin
              let k = P_cipher.set (pat "hk" kl) p v in
              st_s (n, kl, p, v);
              chk_mac (fun () -> n) (fun () -> f k) id.Ref.out (Ref.hmac id k "abc") "abc"
            end
          done)
      done) [b - 1; b; b + 1]) hmacs)
let () = section "c06_blake" (fun () ->
  let lens b = [0; 1; b - 1; b; b + 1; 2 * b + 1] in
  for kl = 0 to 64 do
    for sz = 1 to 64 do
      case (fun () -> Printf.sprintf "blake2b %d bits key %d" (8*sz) kl) (fun () ->
        let k = pat "bk" kl in
        List.iter (fun l -> st3 kl sz l; let s = pat "c06" l in
          chk_mac (fun () -> "blake2b") (fun () -> MAC.blake2b (8 * sz) k) sz (Ref.hash ~key:k (Ref.blake2b (8 * sz)) s) s;
          if sz = 64 then chk_mac (fun () -> "blake2b512") (fun () -> MAC.blake2b512 k) sz (Ref.hash ~key:k (Ref.blake2b 512) s) s) (lens 128))
    done
  done;
  for kl = 0 to 32 do
    for sz = 1 to 32 do
      case (fun () -> Printf.sprintf "blake2s %d bits key %d" (8*sz) kl) (fun () ->
        let k = pat "bk" kl in
        List.iter (fun l -> st3 (100 + kl) sz l; let s = pat "c06" l in
          chk_mac (fun () -> "blake2s") (fun () -> MAC.blake2s (8 * sz) k) sz (Ref.hash ~key:k (Ref.blake2s (8 * sz)) s) s;
          if sz = 32 then chk_mac (fun () -> "blake2s256") (fun () -> MAC.blake2s256 k) sz (Ref.hash ~key:k (Ref.blake2s 256) s) s) (lens 64))
    done
  done;
  for sz = 1 to pick 200 1000 do
    case (fun () -> Printf.sprintf "blake3 %d bits keyed" (8*sz)) (fun () ->
      let k = pat "bk" 32 in
      List.iter (fun l -> st3 200 sz l; let s = pat "c06" l in
        chk_mac (fun () -> "blake3") (fun () -> MAC.blake3 (8 * sz) k) sz (Ref.hash ~key:k (Ref.blake3 (8 * sz)) s) s) (lens 64 @ [1024; 1025; 3073]))
  done;
  for p = 0 to 31 do
    case (fun () -> Printf.sprintf "keyed blake3/2 key byte %d" p) (fun () ->
      for v = 0 to 255 do
        let k = P_cipher.set (pat "bk" 32) p v in
        st3 201 p v;
        chk_mac (fun () -> "blake3_256") (fun () -> MAC.blake3_256 k) 32 (Ref.hash ~key:k (Ref.blake3 256) "xyz") "xyz";
        chk_mac (fun () -> "blake2s256") (fun () -> MAC.blake2s256 k) 32 (Ref.hash ~key:k (Ref.blake2s 256) "xyz") "xyz";
        chk_mac (fun () -> "blake2b512") (fun () -> MAC.blake2b512 k) 64 (Ref.hash ~key:k (Ref.blake2b 512) "xyz") "xyz"
      done)
  done;
  for l = 0 to pick 2200 9000 do
    case (fun () -> Printf.sprintf "keyed blake3 length %d" l) (fun () ->
      let k = pat "bk" 32 and s = pat "c06" l in st3 202 l 0;
      chk_mac (fun () -> "blake3_256") (fun () -> MAC.blake3_256 k) 32 (Ref.hash ~key:k (Ref.blake3 256) s) s)
  done)
let () = section "c06_siphash" (fun () ->
  List.iter (fun (n, f, o) ->
    for l = 0 to pick 1100 70000 do
      case (fun () -> Printf.sprintf "%s length %d" n l) (fun () ->
        st_s (n, l);
        let s = pat "sip" l in
        chk_mac (fun () -> n) (fun () -> f (key 16)) o (Ref.hash ~key:(key 16) (Ref.sip o) s) s)
    done;
    for p = 0 to 15 do
      for v = 0 to 255 do
        case (fun () -> Printf.sprintf "%s key[%d]=%d" n p v) (fun () ->
          st_s (n, p, v);
          let k = P_cipher.set (key 16) p v in
          List.iter (fun l -> let s = pat "sip" l in
            chk_mac (fun () -> n) (fun () -> f k) o (Ref.hash ~key:k (Ref.sip o) s) s) [0; 7; 8; 15; 33])
      done
    done;
    for l = 1 to 17 do
      for p = 0 to l - 1 do
        case (fun () -> Printf.sprintf "%s byte %d of %d" n p l) (fun () ->
          for v = 0 to 255 do
            let s = P_cipher.set (pat "sip" l) p v in
            chk_mac (fun () -> n) (fun () -> f (key 16)) o (Ref.hash ~key:(key 16) (Ref.sip o) s) s
          done)
      done
    done) ["siphash", MAC.siphash, 8; "siphash128", MAC.siphash128, 16])
let () = section "c06_cbcmac" (fun () ->
  let ivl u = ["none", None; "pat", Some (ivs u); "ff", Some (String.make u '\xff')] in
  let riv u = function None -> Ref.zeros u | Some s -> s in
  List.iter (fun (n, f, rb, kls) ->
    List.iter (fun kl ->
      List.iter (fun kv ->
        let k = pat (Printf.sprintf "mk%d" kv) kl in
        let bc = lazy (rb k) in
        List.iter (fun (ivn, iv) ->
          List.iter (fun pad ->
            case (fun () -> Printf.sprintf "%s k%d/%d iv=%s pad=%s" n kl kv ivn (pad_name pad)) (fun () ->
              let bc = Lazy.force bc in
              let u = bc.Ref.bs in
              let iv = match iv with None -> None | Some _ when ivn = "pat" -> Some (ivs u) | _ -> Some (String.make u '\xff') in
              for l = 0 to 5 * u do
                if pad <> No || l mod u = 0 then begin
                  st_s (n, kl, kv, ivn, pad, l);
                  let s = pat "cbcmac" l in
                  chk_mac (fun () -> n) (fun () -> f ?iv ?pad:(pad_arg pad) k) u (Ref.cbc_mac bc (riv u iv) (pad_model pad u s)) s
                end else begin
                  match hash_string (f ?iv ?pad:None k) (pat "cbcmac" l) with
                  | _ -> fail "%d bytes accepted without padding" l
                  | exception Error Wrong_data_length -> ()
                end
              done)) [No; Len; P8000]) (ivl 16)) (range 0 (pick 2 20))) kls) cbcmacs;
  List.iter (fun kl ->
    List.iter (fun (ivn, iv) ->
      List.iter (fun pad ->
        for kv = 0 to pick 5 40 do
          case (fun () -> Printf.sprintf "des_final_triple_des k%d/%d iv=%s pad=%s" kl kv ivn (pad_name pad)) (fun () ->
            let k = pat (Printf.sprintf "dk%d" kv) kl in
            for l = 0 to 40 do
              if pad <> No || l mod 8 = 0 then begin
                st_s (kl, ivn, pad, kv, l);
                let s = pat "cbcmac" l in
                chk_mac (fun () -> "des_final_triple_des") (fun () -> MAC.des_final_triple_des ?iv ?pad:(pad_arg pad) k) 8 (dftd (riv 8 iv) k (pad_model pad 8 s)) s
              end
            done)
        done) [No; Len; P8000]) (ivl 8)) [16; 24];
  List.iter (fun kl ->
    for kv = 0 to pick 400 5000 do
      case (fun () -> Printf.sprintf "aes_cmac k%d/%d" kl kv) (fun () ->
        let k = pat (Printf.sprintf "ck%d" kv) kl in
        let bc = Ref.aes k in
        List.iter (fun l ->
          st_s ("cmac", kl, kv, l);
          let s = pat "cmac" l in
          chk_mac (fun () -> "aes_cmac") (fun () -> MAC.aes_cmac k) 16 (Ref.cmac bc (Ref.zeros 16) s) s;
          chk_mac (fun () -> "aes_cmac/iv") (fun () -> MAC.aes_cmac ~iv:(ivs 16) k) 16 (Ref.cmac bc (ivs 16) s) s)
          (if kv < 8 then range 0 66 else [0; 1; 15; 16; 17; 32; 40]))
    done) [16; 24; 32])
