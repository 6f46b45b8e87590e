(* C16: entropy sources under fault schedules; C17: pseudo-random generators; C27: channels *)
open E
open Objs
open Cryptokit
let uniq = ()
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)
external sched : string -> int list -> unit = "vw_sched"
external sched_end : unit -> int * int * int = "vw_sched_end"
external sched_on : bool -> unit = "vw_sched_on"
let a_eof = -1 and a_eio = -2 and a_eintr = -3
let ans = function 0 -> "full" | -1 -> "EOF" | -2 -> "EIO" | -3 -> "EINTR" | n -> Printf.sprintf "%d bytes" n
let rec words al d = if d = 0 then [[]] else List.concat_map (fun w -> List.map (fun a -> a :: w) al) (words al (d - 1))
let canary n = String.init n (fun i -> Char.chr ((i * 29 + 0x61) land 255))
(* source bytes: never equal to the canary at the place they may land is too much to ask; two complementary sources are used *)
let source k n = String.init n (fun i -> Char.chr ((if k = 0 then i * 7 + 3 else lnot (i * 7 + 3)) land 255))

type src = { sn : string; smk : unit -> Random.rng; answers : int list; can_close : bool }
let scratch_file = lazy (
  let f = Printf.sprintf "device.%d" (Unix.getpid ()) in
  let oc = open_out_bin f in output_string oc (String.make 4096 'D'); close_out oc; f)
let srcs () = [
  { sn = "system_rng"; smk = (fun () -> Random.system_rng ()); answers = [0; a_eio; a_eintr]; can_close = false };
  { sn = "secure_rng"; smk = (fun () -> Random.secure_rng); answers = [0; a_eio]; can_close = false };
  { sn = "device_rng"; smk = (fun () -> Random.device_rng (Lazy.force scratch_file)); answers = [0; 1; 2; 255; a_eof; a_eio; a_eintr]; can_close = true } ]

let () = section "c16_faults" (fun () ->
  List.iter (fun s ->
    let depth = pick 3 4 in
    List.iter (fun len ->
      List.iter (fun w ->
        case (fun () -> Printf.sprintf "%s, %d bytes, answers %s" s.sn len (String.concat ", " (List.map ans w))) (fun () ->
          List.iter (fun (ofs, total) ->
            let outs = List.map (fun k ->
              let buf = Bytes.of_string (canary total) in
              let sr = source k 5000 in
              let r = s.smk () in
              st_s (s.sn, len, w, ofs); trace ();
              sched sr w;
              let res = match r#random_bytes buf ofs len with
                | () -> `Done
                | exception Error Entropy_source_closed -> `Closed
                | exception Unix.Unix_error (e, _, _) -> `Unix e
                | exception e -> ignore (sched_end ()); fail "unexpected exception %s" (exn_string e) in
              let (served, calls, bad) = sched_end () in
              tr (1 + calls);
              if s.can_close then r#wipe;
              let b = Bytes.to_string buf in
              (* nothing outside the range *)
              let can = canary total in
              for i = 0 to total - 1 do
                if (i < ofs || i >= ofs + len) && b.[i] <> can.[i] then fail "byte %d outside the range %d+%d written" i ofs len
              done;
              (match res with
               | `Done ->
                 if served < len then fail "returned normally although the source delivered %d bytes only" served;
                 (* each source byte used once; the places need not be in the order of the requests *)
                 let sorted x = String.of_seq (List.to_seq (List.sort compare (List.of_seq (String.to_seq x)))) in
                 let got = String.sub b ofs len in
                 if not (served = len && sorted (String.sub sr 0 len) = sorted got) then
                   eqf (fun () -> "bytes of the source") (String.sub sr 0 len) got
               | _ ->
                 let hit_fault = List.exists (fun a -> a < 0) w in
                 if not hit_fault then fail "raised although the source never failed");
              res) [0; 1] in
            match outs with [a; b] when a <> b -> fail "outcome depends on the entropy" | _ -> ())
            [0, len; 3, len + 9]))
        (List.concat_map (words s.answers) (range 0 depth)))
      (if s.can_close then pick [0; 1; 2; 3; 255; 256; 257; 600] (range 0 6 @ [254; 255; 256; 257; 511; 512; 600]) else pick [0; 1; 255; 256; 257; 511; 512; 513; 1000; 1024] (range 0 20 @ [255; 256; 257; 511; 512; 513; 768; 1000; 1024; 2000])))
    (srcs ()))

(* every offset and length, no faults; the source is consumed sequentially over calls *)
let () = section "c16_ranges" (fun () ->
  List.iter (fun s ->
    for len = 0 to pick 80 300 do
      case (fun () -> Printf.sprintf "%s: %d bytes at every offset of buffers" s.sn len) (fun () ->
        for ofs = 0 to 17 do
          List.iter (fun tail ->
            let total = ofs + len + tail in
            let buf = Bytes.of_string (canary total) in
            let r = s.smk () in
            trace (); tr 2; st3 len ofs tail;
            let sr = source 0 2000 in
            sched sr [];
            r#random_bytes buf ofs len;
            let first = Bytes.sub_string buf ofs len in
            r#random_bytes buf ofs len;
            let _ = sched_end () in
            if s.can_close then r#wipe;
            eq "first request" (String.sub sr 0 len) first;
            eq "second request" (String.sub sr len len) (Bytes.sub_string buf ofs len);
            eq "before" (String.sub (canary total) 0 ofs) (Bytes.sub_string buf 0 ofs);
            eq "after" (Ref.drop (canary total) (ofs + len)) (Bytes.sub_string buf (ofs + len) tail)) [0; 1; 5]
        done)
    done) (srcs ());
  (* a file that ends *)
  for size = 0 to pick 40 200 do
    case (fun () -> Printf.sprintf "device_rng on a file of %d bytes" size) (fun () ->
      let f = Printf.sprintf "file.%d.%d" (Unix.getpid ()) size in
      let oc = open_out_bin f in output_string oc (source 1 size); close_out oc;
      for len = 0 to size + 3 do
        let r = Random.device_rng f in
        let buf = Bytes.make (len + 2) '#' in
        trace (); tr 1; st2 size len;
        (match r#random_bytes buf 1 len with
         | () -> if len > size then fail "%d bytes obtained from a file of %d" len size;
           eq "file bytes" (String.sub (source 1 size) 0 len) (Bytes.sub_string buf 1 len)
         | exception Error Entropy_source_closed -> if len <= size then fail "Entropy_source_closed with %d of %d bytes" len size);
        (* sequential consumption, then closed for ever *)
        let k = len / 2 in
        r#wipe;
        let r = Random.device_rng f in
        let got = Buffer.create 64 in
        (try
          while true do
            let b = Bytes.make (max 1 k) '#' in
            r#random_bytes b 0 (max 1 k); Buffer.add_bytes got b; tr 1;
            if Buffer.length got > size then fail "more bytes than the file has"
          done
        with Error Entropy_source_closed -> ());
        eqi "bytes obtained before the end" (size / max 1 k * max 1 k) (Buffer.length got);
        eq "sequential" (String.sub (source 1 size) 0 (Buffer.length got)) (Buffer.contents got);
        r#wipe
      done;
      Sys.remove f)
  done;
  case (fun () -> "device_rng on a missing file") (fun () ->
    match Random.device_rng "no-such-file" with
    | _ -> fail "a generator was returned" | exception Unix.Unix_error _ -> () | exception Error No_entropy_source -> ());
  (* Random.string asks for exactly the right range *)
  for n = 0 to 70 do
    case (fun () -> Printf.sprintf "Random.string of %d bytes" n) (fun () ->
      let log = ref [] in
      let r : Random.rng = object
        method random_bytes b o l = log := (Bytes.length b, o, l) :: !log; Bytes.blit_string (source 0 l) 0 b o l
        method wipe = () end in
      trace (); tr 1; st2 n 5;
      eq "Random.string" (source 0 n) (Random.string r n);
      let fail_rng : Random.rng = object method random_bytes _ _ _ = raise (Error Entropy_source_closed) method wipe = () end in
      if n > 0 then match Random.string fail_rng n with _ -> fail "a failing generator yields a string" | exception Error Entropy_source_closed -> ())
  done)

(* real sources: freshness, exact ranges *)
let () = section "c16_real" (fun () ->
  let real = ("system_rng", fun () -> Random.system_rng ()) :: ("secure_rng", fun () -> Random.secure_rng)
    :: (match Random.hardware_rng () with
        | _ -> ["hardware_rng", fun () -> Random.hardware_rng ()]
        | exception Error No_entropy_source -> []) in
  List.iter (fun (n, mk) ->
    for len = 1 to pick 40 300 do
      case (fun () -> Printf.sprintf "%s: every byte of %d is fresh" n len) (fun () ->
        let r = mk () in
        for ofs = 0 to 8 do
          let total = ofs + len + 9 in
          (* over 32 requests every byte of the range takes several values (probability of a false alarm below 2^-200) *)
          let seen = Array.make total 0 in
          let last = Array.make total (-1) in
          for k = 1 to 40 do
            let buf = Bytes.make total '\x5a' in
            tr 1; r#random_bytes buf ofs len;
            for i = 0 to total - 1 do
              let c = Char.code (Bytes.get buf i) in
              if i < ofs || i >= ofs + len then (if c <> 0x5a then fail "byte %d outside %d+%d written" i ofs len)
              else (if c <> last.(i) then seen.(i) <- seen.(i) + 1; last.(i) <- c)
            done
          done;
          trace (); st3 len ofs 1;
          for i = ofs to ofs + len - 1 do
            if seen.(i) < 5 then fail "byte %d of the range is not random (length %d, offset %d)" (i - ofs) len ofs
          done;
          (* consecutive requests and consecutive words differ *)
          if len >= 16 then begin
            let b = Bytes.create len and c = Bytes.create len in
            r#random_bytes b 0 len; r#random_bytes c 0 len;
            for i = 0 to len / 8 - 2 do
              if Bytes.sub b (8 * i) 8 = Bytes.sub b (8 * i + 8) 8 then fail "repeated word";
              if Bytes.sub b (8 * i) 8 = Bytes.sub c (8 * i) 8 then fail "two requests share a word"
            done
          end
        done)
    done) real)


(* ---- RDRAND under scripts (configurations where the instruction is emulated) ---- *)
external rd_script : string -> char -> unit = "vw_rd_script"
external rd_end : unit -> int * string = "vw_rd_end"
let emulated = lazy (Sys.getenv_opt "VW_EMUL" <> None)
let index_from_opt s sub from =
  let n = String.length s and m = String.length sub in
  let rec go i = if i + m > n then None else if String.sub s i m = sub then Some i else go (i + 1) in go from
let () = section "c16_rdrand" (fun () ->
  if not (Lazy.force emulated) then failwith "c16_rdrand needs an emulated processor";
  let check what rng script tail ofs len =
    let total = ofs + len + 5 in
    let can = canary total in
    let buf = Bytes.of_string can in
    rd_script script tail;
    let res = match rng#random_bytes buf ofs len with
      | () -> `Done | exception Error (Entropy_source_closed | No_entropy_source) -> `Raised
      | exception e -> ignore (rd_end ()); fail "%s: unexpected exception %s" what (exn_string e) in
    let (calls, got) = rd_end () in
    trace (); tr (1 + calls); st_s (what, script, tail, ofs, len);
    let b = Bytes.to_string buf in
    for i = 0 to total - 1 do if (i < ofs || i >= ofs + len) && b.[i] <> can.[i] then fail "%s: byte %d outside the range %d+%d written" what i ofs len done;
    match res with
    | `Done ->
      (* every byte comes from a successful execution, each value being used once, in order *)
      let out = String.sub b ofs len in
      let rec words pos from =
        if pos < len then begin
          let n = min 8 (len - pos) in
          let w = String.sub out pos n in
          let rec find k = if 8 * k + 8 > String.length got then fail "%s: bytes %d..%d of the output (%s) do not come from a successful execution" what pos (pos + n - 1) (Ref.hex w)
            else if (match index_from_opt (String.sub got (8 * k) 8) w 0 with Some _ -> true | None -> false) then k + 1 else find (k + 1) in
          words (pos + n) (find from)
        end in
      words 0 0
    | `Raised ->
      if not (String.contains script '0') && tail <> '0' then fail "%s: raised although no execution failed" what in
  rd_script "" '1';
  let rng = Random.hardware_rng () in
  ignore (rd_end ());
  for len = 0 to pick 40 100 do
    case (fun () -> Printf.sprintf "hardware_rng: %d bytes, every run of failures at every position" len) (fun () ->
      List.iter (fun ofs ->
        for pos = 0 to len / 8 + 1 do
          for r = 0 to pick 24 50 do
            check (Printf.sprintf "%d bytes at %d, %d failures after %d executions" len ofs r pos) rng (String.make pos '1' ^ String.make r '0') '1' ofs len
          done;
          check (Printf.sprintf "%d bytes at %d, failures for ever after %d executions" len ofs pos) rng (String.make pos '1') '0' ofs len
        done) [0; 1; 7]);
  done;
  List.iter (fun w ->
    case (fun () -> Printf.sprintf "hardware_rng: 20 bytes, script %s*" (String.concat "" w)) (fun () ->
      let sc = String.concat "" w in
      List.iter (fun tl ->
        (* each symbol stands for one execution, or for a run of 20 *)
        check ("script " ^ sc) rng sc tl 3 20;
        check ("runs " ^ sc) rng (String.concat "" (List.map (fun s -> String.make 20 s.[0]) w)) tl 3 20;
        check ("runs of 19 " ^ sc) rng (String.concat "" (List.map (fun s -> if s = "0" then String.make 19 '0' else s) w)) tl 3 20) ['1'; '0'])) (words ["0"; "1"] (pick 8 12));
  (* creation: an absent, failing or stuck instruction is refused *)
  List.iter (fun (what, script, tail, ok) ->
    case (fun () -> "hardware_rng (): " ^ what) (fun () ->
      rd_script script tail;
      let r = match Random.hardware_rng () with _ -> true | exception Error No_entropy_source -> false in
      let (calls, _) = rd_end () in
      trace (); tr (1 + calls); st_s what;
      if r <> ok then fail "%s: hardware_rng () %s" what (if r then "accepted" else "refused")))
    ["RDRAND works", "", '1', true; "RDRAND always fails", "", '0', false; "RDRAND always returns all ones", "", 'F', false; "one failure, then works", "0", '1', true; "all ones once, then works", "F", '1', true])

(* where secure_rng takes its bytes from, depending on what the platform offers *)
let () = section "c16_fallback" (fun () ->
  let what = try Sys.getenv "VW_EXPECT" with Not_found -> failwith "c16_fallback: no expectation" in
  case (fun () -> "system_rng on a platform without getentropy") (fun () ->
    trace (); tr 1; st_s what;
    match Random.system_rng () with _ -> fail "system_rng (): accepted" | exception Error No_entropy_source -> ());
  for len = 1 to pick 300 1000 do
    case (fun () -> Printf.sprintf "secure_rng (expected source: %s), %d bytes" what len) (fun () ->
      trace (); tr 1; st_s (what, len);
      let buf = Bytes.of_string (canary (len + 5)) in
      let src = source 1 2000 in
      let get () = Random.secure_rng#random_bytes buf 2 len in
      (match what with
       | "device" ->
         sched src [1; 3; 100];
         (match get () with () -> ignore (sched_end ()) | exception e -> ignore (sched_end ()); raise e);
         eq "bytes of the device" (String.sub src 0 len) (Bytes.sub_string buf 2 len)
       | "hardware" ->
         rd_script "" '1'; get (); let (_, got) = rd_end () in
         if String.length got < len / 8 * 8 then fail "not enough executions of RDRAND";
         eq "values of RDRAND" (String.sub got 0 (len / 8 * 8)) (Bytes.sub_string buf 2 (len / 8 * 8))
       | _ -> (match get () with () -> fail "secure_rng returned bytes although the platform has no source of entropy" | exception Error No_entropy_source -> ()));
      eq "before and after" (String.sub (canary (len + 5)) 0 2 ^ Ref.drop (canary (len + 5)) (len + 2)) (Bytes.sub_string buf 0 2 ^ Ref.drop (Bytes.to_string buf) (len + 2)))
  done;
  if what = "none" then
    List.iter (fun (n, f) -> case (fun () -> n ^ " without entropy") (fun () -> trace (); tr 1; st_s n; match f () with () -> fail "%s: accepted without entropy" n | exception Error No_entropy_source -> ()))
      ["RSA.new_key", (fun () -> ignore (RSA.new_key 64)); "Paillier.new_key", (fun () -> ignore (Paillier.new_key 64)); "DH.new_parameters", (fun () -> ignore (DH.new_parameters ~privlen:20 64));
       "DH.private_secret", (fun () -> ignore (DH.private_secret { DH.p = "\023"; g = "\002"; privlen = 4 })); "Random.string", (fun () -> ignore (Random.string Random.secure_rng 16))])

(* ---------------- C17 ---------------- *)
let seed_key s = let l = String.length s in
  if l >= 32 then String.sub s 0 32 else if l > 16 then s ^ Ref.zeros (32 - l) else s
let prngs = [
  "pseudo_rng", Random.pseudo_rng, (fun seed n -> Ref.chacha_keystream (seed_key seed) n), 64;
  "pseudo_rng_aes_ctr", Random.pseudo_rng_aes_ctr,
    (fun seed n -> Ref.take (Ref.ctr 16 (Ref.aes (String.sub seed 0 16)) (Ref.zeros 16) (Ref.zeros ((n + 15) / 16 * 16))) n), 16 ]
let () = section "c17_sequences" (fun () ->
  List.iter (fun (n, mk, model, bs) ->
    let sizes = [0; 1; 2; bs / 2; bs - 1; bs; bs + 1; 2 * bs; 3 * bs + 5; 257] in
    let seed = pat "seed" 40 in
    let stream = lazy (model seed 4000) in
    List.iter (fun a -> List.iter (fun b ->
      case (fun () -> Printf.sprintf "%s: all sequences of requests starting with %d, %d" n a b) (fun () ->
        let stream = Lazy.force stream in
        List.iter (fun w ->
          let r = mk seed in
          trace ();
          let pos = ref 0 in
          List.iteri (fun i len ->
            let ofs = [| 0; 1; 7; 16; 3 |].(i) in
            let total = ofs + len + 3 in
            let buf = Bytes.of_string (canary total) in
            tr 1; st3 !pos len ofs;
            r#random_bytes buf ofs len;
            eqf (fun () -> Printf.sprintf "bytes %d.. of requests %s" !pos (String.concat "," (List.map string_of_int (a :: b :: w))))
              (String.sub (canary total) 0 ofs ^ String.sub stream !pos len ^ Ref.drop (canary total) (ofs + len)) (Bytes.to_string buf);
            pos := !pos + len) (a :: b :: w)) (words sizes (pick 2 3)))) sizes) sizes;
    (* seeds *)
    for l = 0 to 80 do
      case (fun () -> Printf.sprintf "%s: seed of %d bytes" n l) (fun () ->
        trace (); tr 1; st2 l 9;
        match mk (pat "sd" l) with
        | r -> if l < 16 then fail "seed of %d bytes accepted" l;
          eq "stream" (model (pat "sd" l) 200) (Random.string r 200)
        | exception Error Seed_too_short -> if l >= 16 then fail "seed of %d bytes refused" l)
    done;
    for p = 0 to 31 do
      case (fun () -> Printf.sprintf "%s: every value of seed byte %d" n p) (fun () ->
        for v = 0 to 255 do
          trace (); tr 1; st3 p v 10;
          let seed = String.mapi (fun i c -> if i = p then Char.chr v else c) (pat "sv" 32) in
          let seed2 = String.sub seed 0 (max 16 (p + 1)) in
          eq "stream" (model seed 80) (Random.string (mk seed) 80);
          eq "stream" (model seed2 80) (Random.string (mk seed2) 80)
        done)
    done;
    (* two and three generators of the same seed, interleaved in every way *)
    List.iter (fun (a, b) ->
      case (fun () -> Printf.sprintf "%s: interleavings of requests of %d and %d bytes on two generators" n a b) (fun () ->
        for m = 0 to 255 do
          let g = [| mk seed; mk (String.sub seed 0 40) |] and pos = [| 0; 0 |] in
          trace ();
          for i = 0 to 7 do
            let k = (m lsr i) land 1 in
            let len = if k = 0 then a else b in
            tr 1; st3 pos.(0) pos.(1) k;
            eq "interleaved" (String.sub (Lazy.force stream) pos.(k) len) (Random.string g.(k) len);
            pos.(k) <- pos.(k) + len
          done
        done)) [1, 1; 3, 5; 16, 17; 64, 9; 100, 33];
    (* long: every counter carry reached *)
    case (fun () -> n ^ ": long stream") (fun () ->
      let total = pick 1_100_000 18_000_000 in
      let r = mk seed in
      trace (); tr 1;
      eq "long stream" (model seed total) (Random.string r total));
    case (fun () -> n ^ ": long stream in pieces") (fun () ->
      let total = pick 300_000 3_000_000 in
      let r = mk seed in
      let b = Bytes.make total '\000' in
      let i = ref 0 and k = ref 1 in
      trace ();
      while !i < total do
        let n = min !k (total - !i) in
        r#random_bytes b !i n; i := !i + n; k := (!k * 5 + 3) mod 211; tr 1
      done;
      eq "long stream" (model seed total) (Bytes.to_string b))) prngs)

(* ---------------- C27 ---------------- *)
let with_in f =
  let ic = open_in_bin (Lazy.force scratch_file) in
  Fun.protect ~finally:(fun () -> sched_on false; close_in_noerr ic) (fun () -> f ic)
let out_file = lazy (Printf.sprintf "out.%d" (Unix.getpid ()))
let collect f =
  let n = Lazy.force out_file in
  let oc = open_out_bin n in
  let r = (match f oc with v -> Ok v | exception e -> Error e) in
  close_out oc;
  let ic = open_in_bin n in
  let s = really_input_string ic (in_channel_length ic) in
  close_in ic; (r, s)
let () = section "c27_channels" (fun () ->
  let ts = List.filter (fun t -> List.mem t.name ["aes128/CBC/length/enc"; "chacha20/32/8/enc"; "hex/encode"; "b64/multiline"; "aes128/CTR/nopad/enc"]) (transforms ()) in
  let hs = List.filter (fun h -> List.mem h.hn ["sha256"; "siphash"; "mac_aes/k16/8000"; "blake3_256"]) (all_hashes ()) in
  let answers = [1; 2; 255; 256; 257; a_eintr] in
  let datas = pick [0; 1; 16; 255; 256; 257; 512; 513; 700] (range 0 20 @ [254; 255; 256; 257; 258; 511; 512; 513; 600; 767; 768; 769; 1000]) in
  let split f = f in
  List.iter (fun n ->
    List.iter (fun w ->
      case (fun () -> Printf.sprintf "channel of %d bytes, reads %s" n (String.concat ", " (List.map ans w))) (fun () ->
        let data = pat "ch" n in
        let lens = None :: List.map (fun l -> Some l) (List.sort_uniq compare (List.filter (fun l -> l >= 0) [0; 1; n - 1; n; n + 1; n / 2; 256; 255; 300])) in
        List.iter (fun len ->
          let want_n = match len with None -> n | Some l -> l in
          let run what f check =
            with_in (fun ic ->
              trace (); tr 2; st_s (what, n, w, len);
              sched data w;
              let r = (match f ic with v -> Ok v | exception e -> Error e) in
              (* what is left in the channel *)
              let rest = (match r with
                | Ok _ -> let b = Buffer.create 16 in (try while true do Buffer.add_char b (input_char ic) done with End_of_file -> ()); Some (Buffer.contents b)
                | Error _ -> None) in
              sched_on false;
              match r with
              | Error End_of_file -> if want_n <= n then fail "%s, len %d of %d: End_of_file" what want_n n
              | Error e -> fail "%s, len %d of %d: %s" what want_n n (exn_string e)
              | Ok v ->
                if want_n > n then fail "%s: len %d accepted on a channel of %d bytes" what want_n n;
                check v (String.sub data 0 want_n);
                eqf (fun () -> what ^ ": unread rest of the channel") (Ref.drop data want_n) (Option.get rest)) in
          List.iter (fun h ->
            if want_n mod h.iuh = 0 then
            run h.hn (fun ic -> hash_channel (h.hmk ()) ?len ic) (fun v s -> eqf (fun () -> Printf.sprintf "hash_channel %s of %d bytes" h.hn want_n) (h.hmodel s) v)) hs;
          List.iter (fun t ->
            let n' = want_n in
            if n' mod t.iu = 0 then
            run t.name (fun ic ->
                let name = Lazy.force out_file in
                let oc = open_out_bin name in
                Fun.protect ~finally:(fun () -> close_out_noerr oc) (fun () -> transform_channel (t.mk ()) ?len ic oc))
              (fun () s ->
                let ic = open_in_bin (Lazy.force out_file) in
                let o = really_input_string ic (in_channel_length ic) in
                close_in ic;
                eqf (fun () -> Printf.sprintf "transform_channel %s of %d bytes" t.name want_n) (t.model s) (ok o))) ts) lens))
      (List.concat_map (words answers) (range 0 (pick 2 3)))) datas;
  (* successive helpers on the same channel: all partitions into 3 *)
  for a = 0 to pick 40 120 do
    case (fun () -> Printf.sprintf "hash %d bytes, transform some, hash the rest" a) (fun () ->
      List.iter (fun b -> List.iter (fun w ->
        let data = pat "cs" (a + b + 300) in
        with_in (fun ic ->
          trace (); tr 3; st3 a b (List.length w);
          sched data w;
          let h1 = hash_channel (Hash.sha256 ()) ~len:a ic in
          let (_, mid) = (let name = Lazy.force out_file in let oc = open_out_bin name in
                          transform_channel (Hexa.encode ()) ~len:b ic oc; close_out oc; sched_on false;
                          let i2 = open_in_bin name in let s = really_input_string i2 (in_channel_length i2) in close_in i2; sched_on true; ((), s)) in
          let h2 = hash_channel (Hash.sha1 ()) ic in
          sched_on false;
          eq "first" (Ref.hash Ref.sha256 (String.sub data 0 a)) h1;
          eq "second" (Ref.hex (String.sub data a b)) mid;
          eq "third" (Ref.hash Ref.sha1 (Ref.drop data (a + b))) h2)) [[]; [1; 1; 1]; [a + 1; 3]; [256; 1]]) [0; 1; 16; 255; 256; 257; 300])
  done)

(* every transform and hash of the catalogue, longer channels *)
module Str_ = struct
  let find s sub =
    let n = String.length sub in
    let rec go i = if i + n > String.length s then raise Not_found else if String.sub s i n = sub then i else go (i + 1) in go 0
end
let () = section "c27_all" (fun () ->
  let lens = [0; 1; 7; 8; 15; 16; 17; 48; 64; 128; 144; 255; 256; 257; 320; 511; 512; 513; 768; 1024; 1025; 2048; 4096; 4097; 65535; 65536; 65537]
             @ pick [] [70000; 131071; 131072; 131073; 200_003] in
  let scripts = pick [[]; [1; 100; 1; 5000]] [[]; [1; 100; 1; 5000]; [255; 1; 256; 4095]; [4096; 1; 65535; 1; 65536]] in
  let each n iu f =
    let n = n / iu * iu in
    List.iter (fun (part, w) ->
      let data = pat "cl" (n + part) in
      with_in (fun ic ->
        trace (); tr 2;
        sched data w;
        let len = if part = 0 then None else Some n in
        let v = (try f ic len (String.sub data 0 n) with e -> sched_on false; raise e) in
        let b = Buffer.create 16 in (try while true do Buffer.add_char b (input_char ic) done with End_of_file -> ());
        sched_on false;
        if v () then eq "unread rest of the channel" (Ref.drop data n) (Buffer.contents b)))
      (List.concat_map (fun w -> [0, w; 13, w]) scripts) in
  List.iter (fun h ->
    List.iter (fun n ->
      case (fun () -> Printf.sprintf "hash_channel %s, %d bytes" h.hn n) (fun () ->
        st_s (h.hn, n);
        each n h.iuh (fun ic len s ->
          let v = hash_channel (h.hmk ()) ?len ic in
          (fun () -> eqf (fun () -> Printf.sprintf "hash_channel %s of %d bytes" h.hn (String.length s)) (h.hmodel s) v; true)))) lens)
    (List.filter (fun h -> not (String.length h.hn > 3 && String.sub h.hn 0 3 = "toy")) (all_hashes ()));
  List.iter (fun t ->
    List.iter (fun n ->
      if (n <= 5000 || not (quick ())) && not (n > 1500 && (try ignore (Str_.find t.name "CTR_N"); true with Not_found -> false)) then
      case (fun () -> Printf.sprintf "transform_channel %s, %d bytes" t.name n) (fun () ->
        st_s (t.name, n);
        each n t.iu (fun ic len s ->
          let name = Lazy.force out_file in
          let oc = open_out_bin name in
          let r = outcome (fun () -> Fun.protect ~finally:(fun () -> close_out_noerr oc) (fun () -> transform_channel (t.mk ()) ?len ic oc); "") in
          (fun () ->
            let ic = open_in_bin name in
            let o = really_input_string ic (in_channel_length ic) in
            close_in ic;
            eqf (fun () -> Printf.sprintf "transform_channel %s of %d bytes" t.name (String.length s)) (t.model s) (if r = ok "" then ok o else r); r = ok "")))) lens)
    (transforms ()))
