(* C02 C03 C27 C28 *)
open Cryptokit
open E
open Objs
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)
let uniq l = List.sort_uniq compare l

(* ---------------- generic stream of operations ---------------- *)
type ops = {
  put_substring : bytes -> int -> int -> unit; put_string : string -> unit; put_char : char -> unit; put_byte : int -> unit;
  avail : unit -> int; get_string : unit -> string; get_substring : unit -> bytes * int * int; get_char : unit -> char; get_byte : unit -> int }
let ops_t (t : transform) = {
  put_substring = (fun b o l -> t#put_substring b o l); put_string = (fun s -> t#put_string s); put_char = (fun c -> t#put_char c);
  put_byte = (fun b -> t#put_byte b); avail = (fun () -> t#available_output); get_string = (fun () -> t#get_string);
  get_substring = (fun () -> t#get_substring); get_char = (fun () -> t#get_char); get_byte = (fun () -> t#get_byte) }
let ops_a (t : authenticated_transform) = {
  put_substring = (fun b o l -> t#put_substring b o l); put_string = (fun s -> t#put_string s); put_char = (fun c -> t#put_char c);
  put_byte = (fun b -> t#put_byte b); avail = (fun () -> t#available_output); get_string = (fun () -> t#get_string);
  get_substring = (fun () -> t#get_substring); get_char = (fun () -> t#get_char); get_byte = (fun () -> t#get_byte) }

let put o s pos n m =
  tr 1;
  match m with
  | 0 -> o.put_string (String.sub s pos n)
  | 1 ->
    let b = Bytes.make (n + 7) '@' in
    Bytes.blit_string s pos b 5 n;
    let before = Bytes.to_string b in
    (match o.put_substring b 5 n with
     | () -> if Bytes.to_string b <> before then fail "put_substring modified its source"
     | exception e -> if Bytes.to_string b <> before then fail "put_substring modified its source"; raise e)
  | 2 -> for i = pos to pos + n - 1 do o.put_char s.[i] done
  | _ -> for i = pos to pos + n - 1 do o.put_byte (Char.code s.[i]) done

(* one consumption step, appended to out; checks available_output *)
let consume o out policy =
  tr 1;
  let a = o.avail () in
  if a < 0 then fail "available_output = %d" a;
  match policy with
  | 0 -> ()
  | 1 ->
    let s = o.get_string () in
    eqi "length of get_string" a (String.length s);
    Buffer.add_string out s; eqi "available_output after get_string" 0 (o.avail ())
  | 2 ->
    if a > 0 then begin
      Buffer.add_char out (o.get_char ()); eqi "available_output after get_char" (a - 1) (o.avail ())
    end else (match o.get_char () with _ -> fail "get_char on empty output" | exception End_of_file -> ())
  | 3 ->
    let (b, p, l) = o.get_substring () in
    eqi "length of get_substring" a l;
    if p < 0 || l < 0 || p + l > Bytes.length b then fail "get_substring returned an invalid range";
    Buffer.add_subbytes out b p l; eqi "available_output after get_substring" 0 (o.avail ())
  | _ ->
    let k = (a + 1) / 2 in
    for i = 1 to k do Buffer.add_char out (Char.chr (o.get_byte ())) done;
    eqi "available_output after get_byte" (a - k) (o.avail ());
    if a = 0 then (match o.get_byte () with _ -> fail "get_byte on empty output" | exception End_of_file -> ())

let isok s = String.length s >= 3 && String.sub s 0 3 = "ok:"
let body s = String.sub s 3 (String.length s - 3)

let memo : (string * int, string * string) Hashtbl.t = Hashtbl.create 1000
let input_of t n =
  match Hashtbl.find_opt memo (t.name, n) with
  | Some x -> x
  | None -> let s = t.gen "c02" n in let m = t.model s in Hashtbl.add memo (t.name, n) (s, m); (s, m)

let run_t t s m chunks methods policy flush =
  let tt = t.mk () in
  let o = ops_t tt in
  let out = Buffer.create 100 in
  let pos = ref 0 in
  let err = ref None in
  (try
    List.iter2 (fun n mth ->
      put o s !pos n mth;
      pos := !pos + n;
      if flush && t.flush !pos then begin
        tr 1; tt#flush;
        eqi (Printf.sprintf "bytes output when flushed after %d" !pos) (t.flen !pos) (Buffer.length out + o.avail ())
      end;
      consume o out policy) chunks methods;
    tr 1; tt#finish
  with Error _ as e -> err := Some e);
  (match !err with
   | Some e -> eq "outcome" m ("exn:" ^ exn_string e)
   | None ->
     let rest = o.get_string () in
     Buffer.add_string out rest;
     eq "output" m (ok (Buffer.contents out));
     eqi "available_output at the end" 0 (o.avail ());
     (match o.get_char () with _ -> fail "get_char at the end" | exception End_of_file -> ()));
  trace ()

let tsizes t =
  let u = max t.iu 1 in
  let b = if t.iu > 1 then t.iu else if String.contains t.name '/' && String.length t.name > 3 && (String.sub t.name 0 3 = "aes") then 16
    else if String.length t.name > 3 && List.mem (String.sub t.name 0 3) ["des"; "3de"; "blo"] then 8 else 3 in
  let is_cha = String.length t.name > 6 && String.sub t.name 0 6 = "chacha" in
  uniq ([0; 1; 2; b - 1; b; b + 1; 2 * b; 5 * b; 255; 256; 257 ] @ (if u > 1 then [u; 256 / u * u + u; 300 / u * u] else [])
        @ (if is_cha then [63; 64; 65] else []) @ pick [] [3; 511; 513; 700; 7; 2 * b + 1])

let () = section "c02_sequences" (fun () ->
  List.iter (fun t ->
    let sz = tsizes t in
    List.iter (fun a ->
      case (fun () -> Printf.sprintf "%s: put %d then all pairs" t.name a) (fun () ->
        List.iter (fun b -> List.iter (fun c ->
          let tot = a + b + c in
          let (s, m) = input_of t tot in
          st_s (t.name, a, b, c);
          List.iter (fun (ms, pol, fl) ->
            match run_t t s m [a; b; c] ms pol fl with
            | () -> ()
            | exception Fail x -> fail "puts %d+%d+%d methods %s reads %d flush %b: %s" a b c (String.concat "," (List.map string_of_int ms)) pol fl x)
            (if quick () then
               [ [1; (b + c) land 3; (a + c) mod 3], (a + b + c) mod 5, false;
                 [0; 1; (b + 2 * c) land 3], (a + 2 * b + c + 1) mod 5, true ]
             else
               List.concat_map (fun pol -> List.map (fun fl -> [(a + pol) land 3; (b + 1) land 3; (c + pol) land 3], pol, fl) [true; false]) [0; 1; 2; 3; 4]))
          sz) sz)) sz) (transforms ()))

let () = section "c02_cuts" (fun () ->
  List.iter (fun t ->
    let l = let l = (if t.iu > 1 then 3 * t.iu else if String.length t.name > 3 && String.sub t.name 0 3 = "aes" then 50 else 40) in max l t.minl in
    let l = if t.iu > 64 then 2 * t.iu else l in
    let l = if t.iu > 1 then l / t.iu * t.iu else l in
    for i = 0 to l do
      if t.iu <= 64 || i mod 5 = 0 then
      case (fun () -> Printf.sprintf "%s: %d bytes cut at %d and everywhere" t.name l i) (fun () ->
        let (s, m) = input_of t l in
        for j = i to l do
          st_s (t.name, i, j);
          match run_t t s m [i; j - i; l - j] [j land 3; i land 1; (i + j) land 3] ((i + 3 * j) mod 5) (j land 1 = 0) with
          | () -> ()
          | exception Fail x -> fail "cuts %d,%d: %s" i j x
        done)
    done) (transforms ());
  (* stream ciphers and the like: all pairs of cuts of longer messages *)
  List.iter (fun t ->
    let l = pick 200 400 in
    for i = 0 to l do
      case (fun () -> Printf.sprintf "%s: %d bytes cut at %d and everywhere" t.name l i) (fun () ->
        let (s, m) = input_of t l in
        for j = i to l do
          st_s (t.name, i, j, l);
          match run_t t s m [i; j - i; l - j] [1; 1; 1] ((i + 3 * j) mod 5) false with
          | () -> ()
          | exception Fail x -> fail "cuts %d,%d: %s" i j x
        done)
    done;
    (* regular pieces of every size of long messages *)
    List.iter (fun l ->
      case (fun () -> Printf.sprintf "%s: %d bytes in equal pieces of every size" t.name l) (fun () ->
        let (s, m) = input_of t l in
        for k = 1 to pick 140 300 do
          st_s (t.name, l, k);
          let n = l / k in
          let chunks = List.init n (fun _ -> k) @ [l - n * k] in
          match run_t t s m chunks (List.map (fun _ -> 1) chunks) (k mod 5) false with
          | () -> () | exception Fail x -> fail "pieces of %d: %s" k x
        done)) (pick [1000] [1000; 5000]))
    (List.filter (fun t -> t.iu = 1) (streams ()));
  (* compression of data larger than its output buffer, at an offset *)
  if P_mem_zlib.present () then
    List.iter (fun (l, level) ->
      case (fun () -> Printf.sprintf "zlib, %d incompressible bytes at level %d, all cuts of the tier" l level) (fun () ->
        let s = pat "c02z" l in
        List.iter (fun cut -> List.iter (fun off ->
          st_s ("zlib", l, level, cut, off); trace (); tr 4;
          let b = Bytes.of_string (pat "pre" off ^ s ^ pat "post" 300) in
          let c = Zlib.compress ~level () in
          let cut = min cut l in
          c#put_substring b off cut; c#put_substring b (off + cut) (l - cut); c#finish;
          let z = c#get_string in
          let zb = Bytes.of_string (pat "pre" off ^ z ^ pat "post" 300) in
          let u = Zlib.uncompress () in
          let n = String.length z in
          let zc = min cut n in
          u#put_substring zb off zc; u#put_substring zb (off + zc) (n - zc); u#finish;
          eq "round trip" s u#get_string;
          (match Inflate.strict ~header:false z with Ok o -> eq "contents of the compressed stream" s o | _ -> fail "malformed compressed stream")) [0; 1; 777]) [0; 1; 300; l / 2; l - 1; l]))
      [1000, 0; 1000, 9; 40_000, 0; 40_000, 1; 40_000, 6; 200_000, 6])

(* authenticated transforms *)
let run_a (a : a) s m chunks methods policy =
  let t = a.amk () in
  let o = ops_a t in
  let out = Buffer.create 100 in
  let pos = ref 0 in
  let res = (try
    List.iter2 (fun n mth -> put o s !pos n mth; pos := !pos + n; consume o out policy) chunks methods;
    tr 1;
    Ok t#finish_and_get_tag
  with Error _ as e -> Result.Error ("exn:" ^ exn_string e)) in
  (match res, m with
   | Ok tag, Ok (text, wtag) ->
     Buffer.add_string out (o.get_string ());
     eq "text" text (Buffer.contents out); eq "tag" wtag tag;
     eqi "tag_size" (String.length tag) t#tag_size
   | Result.Error e, Result.Error w -> eq "error" w e
   | Ok _, Result.Error w -> fail "expected %s, got a result" w
   | Result.Error e, Ok _ -> fail "unexpected %s" e);
  trace ()
let amemo = Hashtbl.create 100
let ainput (a : a) n = match Hashtbl.find_opt amemo (a.an, n) with
  | Some x -> x | None -> let s = a.agen "c02a" n in let x = (s, a.amodel s) in Hashtbl.add amemo (a.an, n) x; x
let () = section "c02_auth" (fun () ->
  let sz = pick [0; 1; 2; 15; 16; 17; 33; 64; 65; 256; 257] [0; 1; 2; 3; 5; 15; 16; 17; 31; 32; 33; 63; 64; 65; 130; 255; 256; 257; 512] in
  List.iter (fun (a : a) ->
    List.iter (fun x ->
      case (fun () -> Printf.sprintf "%s: put %d then all pairs" a.an x) (fun () ->
        List.iter (fun y -> List.iter (fun z ->
          let (s, m) = ainput a (x + y + z) in
          st_s (a.an, x, y, z);
          match run_a a s m [x; y; z] [(x + z) land 3; y land 3; (x + y) land 3] ((x + 2 * y + 3 * z) mod 5) with
          | () -> () | exception Fail e -> fail "puts %d+%d+%d: %s" x y z e) sz) sz)) sz;
    let l = pick 70 150 / a.aiu * a.aiu in
    case (fun () -> Printf.sprintf "%s: all cuts of %d bytes" a.an l) (fun () ->
      let (s, m) = ainput a l in
      for i = 0 to l do for j = i to l do
        match run_a a s m [i; j - i; l - j] [i land 3; j land 3; (i + j) land 1] ((i + j) mod 5) with
        | () -> () | exception Fail e -> fail "cuts %d,%d: %s" i j e
      done done)) (auths ()))

(* ---------------- C03 : output queue ---------------- *)
class ident = object
  method transform (src : bytes) (so : int) (dst : bytes) (d : int) (len : int) = Bytes.blit src so dst d len
  method wipe = ()
end
(* transforms with known total output for the queue exploration *)
let queue_kinds () =
  let find n = List.find (fun t -> t.name = n) (transforms ()) in
  [ { name = "identity stream"; mk = (fun () -> new Stream.cipher (new ident :> Stream.stream_cipher)); model = ok; gen = gen_any; iu = 1; minl = 0; flush = always; flen = (fun n -> n) };
    find "hex/encode"; find "toy16/cipher"; find "toy200/cipher"; find "b64/compact"; find "aes128/CBC/length/enc"; find "compose(cbc+pad,hex)"; find "chacha20/32/8/enc" ]
type qop = Put of int | Get of int (* chars *) | All | Sub | Flush
let qname = function Put n -> Printf.sprintf "put %d" n | Get n -> Printf.sprintf "get_char*%d" n | All -> "get_string" | Sub -> "get_substring" | Flush -> "flush"
let qinput = Hashtbl.create 10
let run_queue t (history : qop list) =
  let total = List.fold_left (fun a -> function Put n -> a + n | _ -> a) 0 history in
  (* round up so that the stream can be finished *)
  let u = t.iu in
  let tot = (total + u - 1) / u * u in
  let (s, want) = match Hashtbl.find_opt qinput (t.name, tot) with
    | Some x -> x | None -> let s = t.gen "c03" tot in let x = (s, body (t.model s)) in Hashtbl.add qinput (t.name, tot) x; x in
  let tt = t.mk () in
  let o = ops_t tt in
  let pos = ref 0 and del = ref 0 in
  let check_bytes b p l =
    if !del + l > String.length want then fail "too much output";
    for i = 0 to l - 1 do
      if Bytes.get b (p + i) <> want.[!del + i] then
        fail "output byte %d is %02x instead of %02x" (!del + i) (Char.code (Bytes.get b (p + i))) (Char.code want.[!del + i])
    done;
    del := !del + l in
  let one n op =
    tr 1;
    let a = o.avail () in
    match op with
    | Put k ->
      o.put_substring (Bytes.unsafe_of_string s) !pos k; pos := !pos + k;
      let a' = o.avail () in
      if a' < a then fail "available_output went from %d to %d in put" a a';
      if !del + a' > String.length want then fail "more output than expected";
      st3 (Hashtbl.hash t.name) a' !del
    | Get k ->
      for i = 1 to k do
        let a = o.avail () in
        if a = 0 then (match o.get_char () with _ -> fail "get_char on empty output" | exception End_of_file -> ())
        else begin
          let c = if i land 1 = 0 then o.get_char () else Char.chr (o.get_byte ()) in
          check_bytes (Bytes.make 1 c) 0 1;
          if o.avail () <> a - 1 then fail "available_output after get_char: %d, expected %d" (o.avail ()) (a - 1)
        end
      done
    | All ->
      let r = o.get_string () in
      if String.length r <> a then fail "get_string returned %d bytes, available_output was %d" (String.length r) a;
      check_bytes (Bytes.unsafe_of_string r) 0 a;
      if o.avail () <> 0 then fail "available_output not 0 after get_string"
    | Sub ->
      let (b, p, l) = o.get_substring () in
      if l <> a then fail "get_substring returned %d bytes, available_output was %d" l a;
      if p < 0 || p + l > Bytes.length b then fail "get_substring range";
      check_bytes b p l;
      if o.avail () <> 0 then fail "available_output not 0 after get_substring"
    | Flush ->
      if t.flush !pos then begin
        tt#flush;
        if !del + o.avail () <> t.flen !pos then fail "after flush: %d bytes out, expected %d" (!del + o.avail ()) (t.flen !pos)
      end in
  List.iteri one history;
  (if tot > total then o.put_substring (Bytes.unsafe_of_string s) !pos (tot - total));
  tt#finish;
  let a = o.avail () in
  if !del + a <> String.length want then fail "%d bytes delivered or available at the end, expected %d" (!del + a) (String.length want);
  let r = o.get_string () in
  check_bytes (Bytes.unsafe_of_string r) 0 (String.length r);
  if !del <> String.length want then fail "output lost";
  trace ()
let () = section "c03_queue" (fun () ->
  let alpha = [| Put 1; Put 100; Put 156; Put 255; Put 257; Put 700; Get 1; Get 101; All; Sub; Flush |] in
  let na = Array.length alpha in
  let depth = pick 5 6 in
  List.iter (fun t ->
    let pre = na * na in
    for p = 0 to pre - 1 do
      case (fun () -> Printf.sprintf "%s: %s; %s; all %d continuations" t.name (qname alpha.(p / na)) (qname alpha.(p mod na)) (depth - 2)) (fun () ->
        let rest = int_of_float (float na ** float (depth - 2)) in
        for r = 0 to rest - 1 do
          let h = ref [alpha.(p mod na); alpha.(p / na)] and r' = ref r in
          for _ = 3 to depth do h := alpha.(!r' mod na) :: !h; r' := !r' / na done;
          let h = List.rev !h in
          match run_queue t h with
          | () -> ()
          | exception Fail x -> fail "[%s]: %s" (String.concat "; " (List.map qname h)) x
        done)
    done) (pick (List.filteri (fun i _ -> i < 5) (queue_kinds ())) (queue_kinds ())))
(* fine-grained: every pending amount around the buffer size, every consumed amount, every new amount *)
let () = section "c03_boundaries" (fun () ->
  let t = List.hd (queue_kinds ()) in
  let around c w = range (max 0 (c - w)) (c + w) in
  let first = uniq (around 256 (pick 4 12) @ around 128 2 @ around 512 2 @ [1; 2; 250]) in
  List.iter (fun a ->
    case (fun () -> Printf.sprintf "pending %d" a) (fun () ->
      List.iter (fun g ->
        if g <= a then
          List.iter (fun b ->
            List.iter (fun g2 ->
              let h = [Put a; Get g; Put b; Get g2; Put 3] in
              match run_queue t h with
              | () -> ()
              | exception Fail x -> fail "[%s]: %s" (String.concat "; " (List.map qname h)) x) [0; 1; 200])
            (uniq (range 0 8 @ around (256 - a + g) 3 @ around (256 - a) 3 @ around (512 - a + g) 3 @ [g; g - 1; g + 1; 255; 256; 257; 600; 1100] |> List.filter (fun x -> x >= 0))))
        (uniq ([0; 1; 2; 3; a / 2; a - 1; a; a - 2; 127; 128; 129] |> List.filter (fun x -> x >= 0)))))
    first;
  (* the same around the capacity of the buffer for every transform of the catalogue, fed byte by byte *)
  List.iter (fun t ->
    case (fun () -> Printf.sprintf "%s: byte by byte through the capacity of the buffer" t.name) (fun () ->
      let okm n = let m = t.model (t.gen "c03" n) in String.length m >= 3 && String.sub m 0 3 = "ok:" in
      let up n = List.find_opt okm (List.init (t.iu + 4) (fun i -> n + i)) in
      match up 768 with
      | None -> ()
      | Some n0 ->
        let out = String.length (t.model (t.gen "c03" n0)) - 3 in
        List.iter (fun cap ->
          let c = if out = 0 then 256 else cap * n0 / out in
          List.iter (fun a ->
            List.iter (fun chunk ->
              match up (a / chunk * chunk + pick 40 300) with
              | None -> ()
              | Some tot ->
                List.iter (fun g ->
                  let h = List.init (a / chunk) (fun _ -> Put chunk) @ [Get g] @ List.init (tot - a / chunk * chunk) (fun _ -> Put 1) in
                  st_s (t.name, a, g, chunk);
                  match run_queue t h with
                  | () -> ()
                  | exception Fail x -> fail "%d bytes by %d, %d read, more bytes: %s" a chunk g x)
                  (pick [0; 1; 2; 3; 4; 5; 6; 7; 8; 9; 16; 17; 129; 250] (range 0 20 @ [127; 128; 129; 250; 254; 255; 256; 257]))) (if a mod 7 = 0 then [1; 7] else [1]))
            (range (max 0 (c - 6)) (c + 6))) (pick [256; 512] [256; 512; 1024])))
    (transforms ());
  (* every total length through the capacity of the buffer, nothing or little read before finish *)
  List.iter (fun t ->
    List.iter (fun g ->
      case (fun () -> Printf.sprintf "%s: finish at every length through the capacity of the buffer, %d read before" t.name g) (fun () ->
        for n = 0 to pick 560 1100 do
          let s = t.gen "c03f" n in
          let m = t.model s in
          if String.length m >= 3 && String.sub m 0 3 = "ok:" then begin
            let want = Ref.drop m 3 in
            let x = t.mk () in
            trace (); tr 2; st3 (Hashtbl.hash t.name) n g;
            let h = n / 2 in
            x#put_string (String.sub s 0 h);
            let k = min g x#available_output in
            let first = String.init k (fun _ -> x#get_char) in
            x#put_string (String.sub s h (n - h));
            (match x#finish with
             | () -> ()
             | exception e -> fail "%d bytes: %s" n (exn_string e));
            let rest = x#get_string in
            eqf (fun () -> Printf.sprintf "%d bytes" n) want (first ^ rest)
          end
        done)) [0; 1; 5]) (transforms ());
  (* growth to large sizes *)
  List.iter (fun n ->
    case (fun () -> Printf.sprintf "large pending output %d" n) (fun () ->
      List.iter (fun h -> match run_queue t h with () -> () | exception Fail x -> fail "[%s]: %s" (String.concat "; " (List.map qname h)) x)
        [ [Put n; Get 1; Put n; Sub]; [Put 10; Get 9; Put n; Get 5; Put (2 * n); All; Put n]; [Put n; Get (n - 1); Put n; Get 3; Put 1] ]))
    [1000; 4095; 4096; 65537; pick 200_000 5_000_000];
  (* the same through authenticated wrappers, which copy output *)
  List.iter (fun a ->
    case (fun () -> Printf.sprintf "then_hash queue, chunk %d" a) (fun () ->
      List.iter (fun b -> List.iter (fun g ->
        let s = pat "c03h" (3 * a + 3 * b) in
        let t = transform_then_hash (new Stream.cipher (new ident :> Stream.stream_cipher)) (Hash.sha256 ()) in
        let out = Buffer.create 1000 and pos = ref 0 in
        for i = 1 to 3 do
          List.iter (fun n ->
            t#put_substring (Bytes.unsafe_of_string s) !pos n; pos := !pos + n;
            let want = !pos - Buffer.length out in
            eqi "available_output" want t#available_output;
            for _ = 1 to min g t#available_output do Buffer.add_char out t#get_char done) [a; b]
        done;
        let tag = t#finish_and_get_tag in
        Buffer.add_string out t#get_string;
        trace (); tr 7; st3 a b g;
        eq "text" s (Buffer.contents out); eq "tag" (Ref.hash Ref.sha256 s) tag) [0; 1; 50; 256; 1000]) [0; 1; 100; 255; 256; 257; 600]))
    [0; 1; 128; 255; 256; 257; 511; 512; 1000])

(* ---------------- C28 : combinators and helpers ---------------- *)
let () = section "c28_compose" (fun () ->
  let names = ["aes128/CBC/length/enc"; "aes128/CBC/length/dec"; "aes128/CTR/nopad/enc"; "des/ECB/nopad/enc"; "chacha20/32/8/enc"; "hex/encode"; "hex/decode";
               "b64/compact"; "b64/pad"; "b64/decode"; "toy5/padenc"; "toy1/cipher"] in
  let ts = List.map (fun n -> List.find (fun t -> t.name = n) (transforms ())) names in
  List.iter (fun t1 -> List.iter (fun t2 ->
    case (fun () -> Printf.sprintf "compose %s %s" t1.name t2.name) (fun () ->
      for l = 0 to pick 70 300 do
        st_s (t1.name, t2.name, l);
        List.iter (fun s ->
          let m1 = t1.model s in
          let m = if isok m1 then t2.model (body m1) else m1 in
          List.iter (fun step ->
            trace ();
            let c = compose (t1.mk ()) (t2.mk ()) in
            if step = 0 then begin
              eqi "input_block_size" (t1.mk ())#input_block_size c#input_block_size;
              eqi "output_block_size" (t2.mk ())#output_block_size c#output_block_size
            end;
            let out = Buffer.create 100 in
            let o = outcome (fun () ->
              if step = 0 then c#put_string s
              else begin
                let i = ref 0 in
                while !i < String.length s do
                  let n = min step (String.length s - !i) in
                  tr 1; c#put_substring (Bytes.unsafe_of_string s) !i n; i := !i + n;
                  if !i land 1 = 0 then Buffer.add_string out c#get_string
                done
              end;
              c#finish; Buffer.add_string out c#get_string; Buffer.contents out) in
            if isok m1 then eqf (fun () -> Printf.sprintf "%d bytes in steps of %d" l step) m o
            else if isok o then fail "composition succeeded although the first transform fails: %s" m1) [0; 1; 7; 100])
          [t1.gen "c28" l]
      done)) ts) ts;
  (* three-way composition, both associations *)
  let arr = Array.of_list ts in
  for i = 0 to Array.length arr - 1 do for j = 0 to Array.length arr - 1 do
    case (fun () -> Printf.sprintf "associativity %s %s *" arr.(i).name arr.(j).name) (fun () ->
      Array.iter (fun t3 ->
        List.iter (fun l ->
          let s = arr.(i).gen "c28" l in
          trace (); tr 2;
          let a = outcome (fun () -> transform_string (compose (compose (arr.(i).mk ()) (arr.(j).mk ())) (t3.mk ())) s)
          and b = outcome (fun () -> transform_string (compose (arr.(i).mk ()) (compose (arr.(j).mk ()) (t3.mk ()))) s) in
          let m1 = arr.(i).model s in
          let m2 = if isok m1 then arr.(j).model (body m1) else m1 in
          let m3 = if isok m2 then t3.model (body m2) else m2 in
          if isok m3 || isok a || isok b then (eq "left association" m3 a; eq "right association" m3 b)) [0; 1; 16; 48; 80]) arr)
  done done;
  (* flush goes through both *)
  List.iter (fun (t1, t2, f) ->
    case (fun () -> "flush of a composition " ^ f) (fun () ->
      for n = 0 to 5 do
        let c = compose (t1 ()) (t2 ()) in
        let s = pat "c28f" (n * 16) in
        c#put_string s; tr 2;
        c#flush;
        trace ();
        let want = Ref.hex (Ref.ecb true (rbc (List.hd bks) (List.hd bks).bkey) s) in
        eq "flushed output" want c#get_string
      done))
    [ (fun () -> Cipher.aes ~mode:Cipher.ECB (key 16) Cipher.Encrypt), (fun () -> Hexa.encode ()), "ecb,hex" ])

let ident_t () : transform = new Stream.cipher (new ident :> Stream.stream_cipher)
(* a hash with a chosen tag size: the tag is determined by the data *)
class toy_hash n = object
  val b = Buffer.create 10
  val mutable wiped = false
  method hash_size = n
  method add_substring s o l = Buffer.add_subbytes b s o l
  method add_string s = Buffer.add_string b s
  method add_char c = Buffer.add_char b c
  method add_byte x = Buffer.add_char b (Char.chr x)
  method result = String.sub (pat ("th" ^ Digest.string (Buffer.contents b)) (n + 1)) 0 n
  method wipe = wiped <- true
  method wiped = wiped
end
let toy_hash_model n s = String.sub (pat ("th" ^ Digest.string s) (n + 1)) 0 n
let () = section "c28_auth" (fun () ->
  (* string helpers over user-defined and library components, all tag sizes *)
  for n = 0 to 40 do
    case (fun () -> Printf.sprintf "helpers, tag size %d" n) (fun () ->
      for l = 0 to pick 40 100 do
        let s = pat "c28a" l in
        st2 n l;
        List.iter (fun (nm, mk, text, tag) ->
          trace (); tr 4;
          eqi "tag_size" n (mk ())#tag_size;
          let (t, g) = auth_transform_string_detached (mk ()) s in
          eq (nm ^ ": detached text") text t; eq (nm ^ ": detached tag") tag g;
          eq (nm ^ ": attached") (text ^ tag) (auth_transform_string (mk ()) s);
          (* check: input = s ^ tag *)
          (match auth_check_transform_string (mk ()) (s ^ tag) with
           | Some r -> eq (nm ^ ": checked text") text r | None -> fail "%s: correct tag refused" nm);
          for i = 0 to n - 1 do
            tr 1;
            let bad = P_cipher.flip tag (8 * i + (i + l) land 7) in
            match auth_check_transform_string (mk ()) (s ^ bad) with
            | Some _ -> fail "%s: tag wrong at byte %d accepted" nm i | None -> ()
          done)
          [ "then/hex", (fun () -> transform_then_hash (Hexa.encode ()) (new toy_hash n :> hash)), Ref.hex s, toy_hash_model n (Ref.hex s);
            "and/hex", (fun () -> transform_and_hash (Hexa.encode ()) (new toy_hash n :> hash)), Ref.hex s, toy_hash_model n s;
            "then/id", (fun () -> transform_then_hash (ident_t ()) (new toy_hash n :> hash)), s, toy_hash_model n s ]
      done;
      (* too short for a tag *)
      for l = 0 to n - 1 do
        match auth_check_transform_string (transform_and_hash (Hexa.encode ()) (new toy_hash n :> hash)) (pat "s" l) with
        | _ -> fail "input of %d bytes accepted with a tag of %d" l n
        | exception Error Wrong_data_length -> ()
      done)
  done;
  List.iter (fun (a : a) ->
    case (fun () -> "helpers " ^ a.an) (fun () ->
      for l = 0 to pick 100 400 do
        if l mod a.aiu = 0 then begin
          let s = a.agen "c28x" l in
          st_s (a.an, l); trace (); tr 2;
          match a.amodel s with
          | Result.Error e ->
            eq "error" e (outcome (fun () -> auth_transform_string (a.amk ()) s))
          | Ok (text, tag) ->
            let t = a.amk () in
            eqi "tag_size" a.atag t#tag_size;
            let (x, g) = auth_transform_string_detached t s in
            eq "text" text x; eq "tag" tag g;
            eq "attached" (text ^ tag) (auth_transform_string (a.amk ()) s);
            (match auth_check_transform_string (a.amk ()) (s ^ tag) with
             | Some r -> eq "checked" text r | None -> fail "correct tag refused, %d bytes" l)
        end
      done)) (auths ()))
let () = section "c28_helpers" (fun () ->
  List.iter (fun t ->
    case (fun () -> "transform_string " ^ t.name) (fun () ->
      for l = 0 to 70 do
        let s = t.gen "c28h" l in
        trace (); tr 1; st_s (t.name, l);
        eqf (fun () -> Printf.sprintf "%d bytes" l) (t.model s) (outcome (fun () -> transform_string (t.mk ()) s))
      done)) (transforms ());
  List.iter (fun h ->
    case (fun () -> "hash_string " ^ h.hn) (fun () ->
      for l = 0 to 70 do
        if l mod h.iuh = 0 then begin
          let s = pat "c28h" l in
          trace (); tr 1; st_s (h.hn, l);
          eqf (fun () -> Printf.sprintf "%d bytes" l) (h.hmodel s) (hash_string (h.hmk ()) s)
        end
      done)) (all_hashes ()))
