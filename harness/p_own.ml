(* C31: what is given to the library and what it returns belongs to the caller *)
open E
open Objs
open Cryptokit
let uniq = ()
let range = P_aead.range

let with_tracking f =
  tracking := true;
  match f () with x -> tracking := false; x | exception e -> tracking := false; raise e
let args_intact what =
  List.iter (fun (s, c) -> eqf (fun () -> what () ^ ": an argument (key, IV, header...) was modified") c s) !tracked
(* strings returned by the library, with a copy *)
let results : (string * string) list ref = ref []
let keep s = results := (s, Bytes.to_string (Bytes.of_string s)) :: !results; s
let results_intact what =
  List.iter (fun (s, c) -> eqf (fun () -> what () ^ ": a string returned earlier was modified") c s) !results

(* how a piece of input is given, and what is taken out after it *)
type how = Sub of int | Str | Chr
type out = Nothing | Get | GetSub | GetC
let hows = [Sub 0; Sub 3; Str; Chr]
let outs = [Nothing; Get; GetSub; GetC]
let how_name = function Sub o -> Printf.sprintf "substring at %d, overwritten afterwards" o | Str -> "string" | Chr -> "characters"
let out_name = function Nothing -> "" | Get -> ", get_string" | GetSub -> ", get_substring" | GetC -> ", get_char"
let give how put_sub put_str put_chr s =
  match how with
  | Sub o ->
    let n = String.length s in
    let b = Bytes.make (n + o + 5) '\x5a' in
    Bytes.blit_string s 0 b o n;
    let before = Bytes.to_string b in
    put_sub b o n;
    eq "source buffer after the call" before (Bytes.to_string b);
    Bytes.fill b 0 (n + o + 5) '\xa5'
  | Str ->
    let c = Bytes.to_string (Bytes.of_string s) in
    results := (c, s) :: !results;      (* checked to the end *)
    put_str c
  | Chr -> String.iter put_chr s
(* cut a total length in pieces of the given sizes, the last one rounded *)
let plan iu minl sizes =
  let t = List.fold_left (+) 0 sizes in
  let t = max minl ((t + iu - 1) / iu * iu) in
  t
let pieces s sizes =
  let rec go o = function
    | [] -> []
    | [_] -> [String.sub s o (String.length s - o)]
    | n :: r -> String.sub s o n :: go (o + n) r in go 0 sizes

let sequences al d = P_rng.words al d

let run_t (mk : unit -> transform) steps =
  let b = Buffer.create 64 in
  let x = with_tracking mk in
  let take o = match o with
    | Nothing -> ()
    | Get -> Buffer.add_string b (keep x#get_string)
    | GetSub -> let (u, o, l) = x#get_substring in Buffer.add_string b (Bytes.sub_string u o l)
    | GetC -> if x#available_output > 0 then Buffer.add_char b x#get_char in
  let r = outcome (fun () ->
    List.iter (fun (how, s, o) -> give how x#put_substring x#put_string x#put_char s; tr 2; take o) steps;
    x#finish; take Get; Buffer.contents b) in
  args_intact (fun () -> "before wipe");
  x#wipe;
  r

let () = section "c31_transforms" (fun () ->
  let ts = with_tracking (fun () -> tracked := []; transforms () @ P_mem.zlib_ts ()) in
  let base = !tracked @ List.map (fun bk -> (bk.bkey, Bytes.to_string (Bytes.of_string bk.bkey))) bks in
  List.iter (fun t ->
    let sizes = List.sort_uniq compare [1; t.iu; t.iu + 1; 17] in
    let depth = pick 2 3 in
    List.iter (fun szs ->
      case (fun () -> Printf.sprintf "%s, pieces of %s" t.name (String.concat ", " (List.map string_of_int szs))) (fun () ->
        let n = plan t.iu t.minl szs in
        let s = t.gen "own" n in
        let szs = if String.length s >= List.fold_left (+) 0 szs then szs else [String.length s] in
        let want = t.model s in
        let ps = pieces s szs in
        let d = List.length ps in
        List.iter (fun hs -> List.iter (fun os ->
          trace (); st_s (t.name, szs, hs, os);
          tracked := base; results := [];
          let what () = String.concat "; " (List.map2 (fun h o -> how_name h ^ out_name o) hs os) in
          let steps = List.map2 (fun (h, p) o -> (h, p, o)) (List.combine hs ps) os in
          eqf (fun () -> "output: " ^ what ()) want (run_t t.mk steps);
          args_intact what; results_intact what;
          (* a second object, the results of the first kept *)
          ignore (run_t t.mk [Str, s, Get]);
          args_intact what; results_intact what) (sequences (if quick () && d > 1 then [Nothing; Get] else outs) d))
          (sequences (if quick () && d > 1 then [Sub 3; Str] else hows) d)))
      (List.concat_map (fun d -> sequences (if d >= 3 then [1; t.iu + 1] else sizes) d) (range 1 depth))) ts)

let () = section "c31_hashes" (fun () ->
  List.iter (fun h ->
    let sizes = List.sort_uniq compare [1; h.iuh; h.hblk - 1; h.hblk; h.hblk + 1] in
    let depth = pick 2 3 in
    List.iter (fun szs ->
      case (fun () -> Printf.sprintf "%s, pieces of %s" h.hn (String.concat ", " (List.map string_of_int szs))) (fun () ->
        let s = pat "own" (plan h.iuh 0 szs) in
        let want = h.hmodel s in
        let ps = pieces s szs in
        let run hs ps =
          let x = with_tracking h.hmk in
          List.iter2 (fun how p -> tr 1; give how x#add_substring x#add_string x#add_char p) hs ps;
          let r = keep x#result in
          tr 1;
          eq "result" want r;
          x#wipe in
        List.iter (fun hs ->
          trace (); st_s (h.hn, szs, hs);
          tracked := []; results := [];
          let what () = String.concat "; " (List.map how_name hs) in
          run hs ps;
          args_intact what; results_intact what;
          let x = with_tracking h.hmk in
          x#add_string (pat "other" (h.iuh * 2)); ignore (keep x#result); x#wipe;
          run [Str] [s];
          args_intact what; results_intact what) (sequences hows (List.length ps))))
      (List.concat_map (fun d -> sequences (if d >= 3 then [1; h.hblk] else sizes) d) (range 1 depth))) (all_hashes ()))

let () = section "c31_auths" (fun () ->
  let l = with_tracking (fun () -> tracked := []; auths ()) in
  let base = !tracked @ List.map (fun bk -> (bk.bkey, Bytes.to_string (Bytes.of_string bk.bkey))) bks in
  List.iter (fun a ->
    List.iter (fun szs ->
      case (fun () -> Printf.sprintf "%s, pieces of %s" a.an (String.concat ", " (List.map string_of_int szs))) (fun () ->
        let s = a.agen "own" (plan a.aiu (if a.aiu > 1 then a.aiu else 0) szs) in
        let want = match a.amodel s with Ok (o, t) -> "ok:" ^ o ^ t | Error e -> e in
        let ps = pieces s szs in
        let run hs os ps =
          let b = Buffer.create 64 in
          let x = with_tracking a.amk in
          let take = function
            | Nothing -> ()
            | Get -> Buffer.add_string b (keep x#get_string)
            | GetSub -> let (u, o, l) = x#get_substring in Buffer.add_string b (Bytes.sub_string u o l)
            | GetC -> if x#available_output > 0 then Buffer.add_char b x#get_char in
          let r = outcome (fun () ->
            List.iter2 (fun (how, p) o -> tr 2; give how x#put_substring x#put_string x#put_char p; take o) (List.combine hs ps) os;
            let t = keep x#finish_and_get_tag in
            take Get; Buffer.contents b ^ t) in
          args_intact (fun () -> "before wipe");
          x#wipe; r in
        List.iter (fun hs -> List.iter (fun os ->
          trace (); st_s (a.an, szs, hs, os);
          tracked := base; results := [];
          let what () = String.concat "; " (List.map2 (fun h o -> how_name h ^ out_name o) hs os) in
          eqf (fun () -> "output and tag: " ^ what ()) want (run hs os ps);
          args_intact what; results_intact what;
          ignore (run [Str] [Get] [s]);
          args_intact what; results_intact what) (sequences (if quick () then [Nothing; Get] else outs) (List.length ps)))
          (sequences (if quick () then [Sub 3; Str] else hows) (List.length ps))))
      (List.concat_map (fun d -> sequences [1; 16; 17] d) (range 1 (pick 2 3)))) l)

(* the cipher objects themselves: source blocks are read only, unless source and destination are the same place *)
let () = section "c31_ciphers" (fun () ->
  let blocks = List.concat_map (fun bk -> [
      bk.bn ^ " encrypt", bk.bbs, (fun () -> bk.benc (track_arg bk.bkey; bk.bkey)); bk.bn ^ " decrypt", bk.bbs, (fun () -> bk.bdec bk.bkey) ]
    @ List.map (fun (n, f) -> bk.bn ^ " " ^ n, bk.bbs, (fun () -> f (pat "iv" bk.bbs) (bk.benc bk.bkey))) [
        "cbc_encrypt", (fun iv c -> (new Block.cbc_encrypt ~iv c :> Block.block_cipher));
        "cbc_decrypt", (fun iv c -> (new Block.cbc_decrypt ~iv c :> Block.block_cipher));
        "cfb_encrypt", (fun iv c -> (new Block.cfb_encrypt ~iv 5 c :> Block.block_cipher));
        "cfb_decrypt", (fun iv c -> (new Block.cfb_decrypt ~iv 5 c :> Block.block_cipher));
        "ofb", (fun iv c -> (new Block.ofb ~iv 3 c :> Block.block_cipher));
        "ctr", (fun iv c -> (new Block.ctr ~iv c :> Block.block_cipher)) ]) bks in
  List.iter (fun (name, _, mk) ->
    case (fun () -> name) (fun () ->
      List.iter (fun (so, dof) ->
        tracked := [];
        let x = with_tracking mk in
        let bs = x#blocksize in
        let ref_ = with_tracking mk in
        let src = Bytes.make (bs + 20) '\x33' in
        for i = 1 to pick 6 20 do
          trace (); tr 1; st_s (name, so, dof, i);
          let p = pat (string_of_int i) bs in
          Bytes.blit_string p 0 src so bs;
          let before = Bytes.to_string src in
          let dst = Bytes.make (bs + 20) '\x44' in
          x#transform src so dst dof;
          eq "source" before (Bytes.to_string src);
          Bytes.fill src 0 (bs + 20) (Char.chr i);
          let out = Bytes.sub_string dst dof bs in
          Bytes.fill dst 0 (bs + 20) '\xee';           (* the destination is the caller's again *)
          let b = Bytes.of_string p in
          ref_#transform b 0 b 0;
          eqf (fun () -> Printf.sprintf "block %d" i) (Bytes.to_string b) out
        done;
        args_intact (fun () -> name);
        x#wipe; ref_#wipe;
        args_intact (fun () -> name ^ ", wiped")) [0, 0; 3, 5; 20, 0; 0, 20]);
    beat ()) blocks;
  List.iter (fun (name, mk) ->
    case (fun () -> name) (fun () ->
      List.iter (fun lens ->
        tracked := [];
        let x : Stream.stream_cipher = with_tracking mk in
        let y : Stream.stream_cipher = with_tracking mk in
        List.iter (fun n ->
          trace (); tr 1; st_s (name, lens, n);
          let src = Bytes.of_string (pat "own" (n + 7)) in
          let before = Bytes.to_string src in
          let dst = Bytes.make (n + 9) '\x44' in
          x#transform src 3 dst 5 n;
          eq "source" before (Bytes.to_string src);
          Bytes.fill src 0 (n + 7) '\x99';
          let out = Bytes.sub_string dst 5 n in
          Bytes.fill dst 0 (n + 9) '\xee';
          let b = Bytes.of_string (String.sub before 3 n) in
          y#transform b 0 b 0 n;
          eq "output" (Bytes.to_string b) out) lens;
        args_intact (fun () -> name);
        x#wipe; y#wipe;
        args_intact (fun () -> name ^ ", wiped")) (sequences [0; 1; 63; 64; 65; 130] (pick 2 3))))
    [ "arcfour", (fun () -> (new Stream.arcfour (key 16) :> Stream.stream_cipher));
      "chacha20", (fun () -> (new Stream.chacha20 ~iv:(ivs 8) (key 32) :> Stream.stream_cipher));
      "chacha20/12", (fun () -> (new Stream.chacha20 ~iv:(ivs 12) ~ctr:7L (key 16) :> Stream.stream_cipher)) ])

(* generators *)
let () = section "c31_random" (fun () ->
  List.iter (fun (name, mk) ->
    case (fun () -> name) (fun () ->
      List.iter (fun lens ->
        trace (); st_s (name, lens);
        tracked := []; results := [];
        let x : Random.rng = with_tracking mk and y : Random.rng = with_tracking mk in
        List.iter (fun n ->
          tr 1;
          let s = keep (Random.string x n) in
          let b = Bytes.make (n + 6) '\x10' in
          y#random_bytes b 3 n;
          eq "same bytes" s (Bytes.sub_string b 3 n);
          Bytes.fill b 0 (n + 6) '\x77') lens;
        args_intact (fun () -> name);
        results_intact (fun () -> name);
        x#wipe; y#wipe;
        results_intact (fun () -> name ^ ", wiped")) (sequences [0; 1; 15; 16; 17; 64; 65; 130] 3)))
    [ "pseudo_rng/16", (fun () -> Random.pseudo_rng (pat "seed" 16)); "pseudo_rng/20", (fun () -> Random.pseudo_rng (pat "seed" 20));
      "pseudo_rng/40", (fun () -> Random.pseudo_rng (pat "seed" 40)); "pseudo_rng_aes_ctr", (fun () -> Random.pseudo_rng_aes_ctr (pat "seed" 33)) ])

(* public-key operations and one-call helpers, all sequences of three *)
let () = section "c31_functions" (fun () ->
  let rng () = Random.pseudo_rng (pat "c31" 32) in
  let fresh s = Bytes.to_string (Bytes.of_string s) in
  List.iter (fun bits ->
    let names = [| "RSA.encrypt"; "RSA.decrypt"; "RSA.decrypt_CRT"; "RSA.new_key"; "Paillier.encrypt"; "Paillier.decrypt"; "Paillier.add"; "Paillier.new_key";
                   "DH.message"; "DH.shared_secret"; "DH.derive_key"; "hash_string"; "transform_string"; "auth"; "auth_check"; "mod_power" |] in
    List.iter (fun w ->
      case (fun () -> Printf.sprintf "%d bits: %s" bits (String.concat ", " (List.map (fun i -> names.(i)) w))) (fun () ->
        trace (); st_s (bits, w);
        tracked := []; results := [];
        let (rk, rp) = RSA.new_key ~rng:(rng ()) ~e:65537 bits in
        let (pk, pp) = Paillier.new_key ~rng:(rng ()) bits in
        let dp = DH.new_parameters ~rng:(rng ()) ~privlen:20 bits in
        List.iter track_arg [rk.RSA.n; rk.d; rk.p; rk.q; rk.dp; rk.dq; rk.qinv; rp.RSA.n; rp.e;
                             pk.Paillier.n; pk.n2; pk.p; pk.q; pk.lambda; pk.mu; pp.Paillier.n; pp.n2; pp.g; dp.DH.p; dp.g];
        let arg s = let s = fresh s in track_arg s; s in
        let m = arg "\001\002\003" in
        let once = Hashtbl.create 7 in
        let same i s =
          (* the same function on the same arguments gives the same answer, whatever was done in between *)
          match Hashtbl.find_opt once i with
          | None -> Hashtbl.add once i (fresh s)
          | Some t -> eqf (fun () -> names.(i) ^ " again") t s in
        List.iter (fun i ->
          tr 1;
          let r = keep (match i with
            | 0 -> RSA.encrypt rp m | 1 -> RSA.decrypt rk m | 2 -> RSA.decrypt_CRT rk m
            | 3 -> let (k, _) = RSA.new_key ~rng:(rng ()) ~e:65537 bits in ignore (keep k.RSA.d); k.RSA.n
            | 4 -> Paillier.encrypt ~rng:(rng ()) pp m
            | 5 -> Paillier.decrypt pk (arg (Paillier.encrypt ~rng:(rng ()) pp m))
            | 6 -> let c = arg (Paillier.encrypt ~rng:(rng ()) pp m) in Paillier.add pp c c
            | 7 -> let (k, _) = Paillier.new_key ~rng:(rng ()) bits in k.Paillier.n
            | 8 -> DH.message dp (DH.private_secret ~rng:(rng ()) dp)
            | 9 -> DH.shared_secret dp (DH.private_secret ~rng:(rng ()) dp) m
            | 10 -> DH.derive_key ~diversification:(arg "div") (arg "a shared secret") 70
            | 11 -> hash_string (MAC.hmac_sha256 (arg "key")) m
            | 12 -> transform_string (Cipher.aes ~pad:Padding.length ~iv:(arg (ivs 16)) (arg (key 16)) Cipher.Encrypt) m
            | 13 -> auth_transform_string (AEAD.aes_gcm ~header:(arg "h") ~iv:(arg (ivs 12)) (arg (key 16)) AEAD.Encrypt) m
            | 14 -> let c = arg (auth_transform_string (AEAD.chacha20_poly1305 ~header:(arg "h") ~iv:(arg (ivs 12)) (arg (key 32)) AEAD.Encrypt) m) in
              (match auth_check_transform_string (AEAD.chacha20_poly1305 ~header:(arg "h") ~iv:(arg (ivs 12)) (arg (key 32)) AEAD.Decrypt) c with
               | Some s -> eq "message" m s; s | None -> fail "rejected")
            | _ -> mod_power m rp.RSA.e rp.RSA.n) in
          same i r;
          args_intact (fun () -> names.(i)); results_intact (fun () -> names.(i))) w))
      (sequences (range 0 15) (pick 2 3))) [64; 192])
