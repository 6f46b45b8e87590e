(* C14: Base64 and hexadecimal; C15: zlib *)
open E
open Objs
open Cryptokit
let uniq = ()
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)
let set s i v = String.mapi (fun j c -> if i = j then Char.chr (v land 255) else c) s
let ts mk s = outcome (fun () -> transform_string (mk ()) s)
let b64dec () = Base64.decode () and hexdec () = Hexa.decode ()

let encoders = [
  "compact", (fun () -> Base64.encode_compact ()), (fun s o -> o = Ref.b64 ~pad:false s), b64dec;
  "pad", (fun () -> Base64.encode_compact_pad ()), (fun s o -> o = Ref.b64 ~pad:true s), b64dec;
  "multiline", (fun () -> Base64.encode_multiline ()), multiline_ok, b64dec;
  "hexa", (fun () -> Hexa.encode ()), (fun s o -> o = Ref.hex s), hexdec ]
let enc_check (n, mk, good, dec) s =
  tr 2; trace ();
  match ts mk s with
  | o when String.length o >= 3 && String.sub o 0 3 = "ok:" ->
    let o = Ref.drop o 3 in
    if not (good s o) then fail "%s encoding of %s is %S" n (show s) o;
    let d = ts dec o in
    if d <> ok s then fail "decoding the %s encoding of %s gives %s" n (show s) (show d)
  | e -> fail "%s encoding of %s: %s" n (show s) e

let () = section "c14_encode" (fun () ->
  List.iter (fun ((n, _, _, _) as e) ->
    case (fun () -> n ^ ": empty and all 1-byte strings") (fun () ->
      enc_check e ""; for a = 0 to 255 do st2 1 a; enc_check e (String.make 1 (Char.chr a)) done);
    for a = 0 to 255 do
      case (fun () -> Printf.sprintf "%s: all 2-byte strings starting with %d; 3-byte strings with one free byte" n a) (fun () ->
        for b = 0 to 255 do
          st3 2 a b;
          let c x y z = let t = Bytes.create 3 in Bytes.set t 0 (Char.chr x); Bytes.set t 1 (Char.chr y); Bytes.set t 2 (Char.chr z); Bytes.to_string t in
          enc_check e (String.sub (c a b 0) 0 2);
          enc_check e (c a b 0x5a); enc_check e (c a 0xc3 b); enc_check e (c 0x99 a b);
          if not (quick ()) then for z = 0 to 255 do enc_check e (c a b z) done
        done)
    done;
    for l = 0 to pick 400 2000 do
      case (fun () -> Printf.sprintf "%s: %d bytes" n l) (fun () -> st2 3 l;
        enc_check e (pat "b64" l); enc_check e (String.make l '\000'); enc_check e (String.make l '\255'))
    done) encoders)

let () = section "c14_blanks" (fun () ->
  (* blanks inserted at every subset of positions *)
  List.iter (fun ((n, mk, _, dec)) ->
    List.iter (fun l ->
      List.iter (fun bl ->
        case (fun () -> Printf.sprintf "%s of %d bytes, blank %S at every subset of positions" n l bl) (fun () ->
          let s = pat "bl" l in
          let o = transform_string (mk ()) s in
          let k = String.length o in
          if k <= pick 9 12 then
          for m = 0 to (1 lsl (k + 1)) - 1 do
            st3 l m (Char.code bl.[0]); tr 1;
            let b = Buffer.create 40 in
            for i = 0 to k do
              if (m lsr i) land 1 = 1 then Buffer.add_string b bl;
              if i < k then Buffer.add_char b o.[i]
            done;
            trace ();
            let d = ts dec (Buffer.contents b) in
            if d <> ok s then fail "decoding %S gives %s" (Buffer.contents b) (show d)
          done)) [" "; "\t"; "\n"; "\r"; "\r\n"; " \t \n"]) (range 0 6)) encoders;
  (* reflowed text: every line width *)
  List.iter (fun w ->
    case (fun () -> Printf.sprintf "reflowed in lines of %d" w) (fun () ->
      List.iter (fun ((n, mk, _, dec)) ->
        let s = pat "rf" 200 in
        let o = strip_nl (transform_string (mk ()) s) in
        let b = Buffer.create 500 in
        String.iteri (fun i c -> if i > 0 && i mod w = 0 then Buffer.add_string b "\r\n"; Buffer.add_char b c) o;
        trace (); tr 1; st2 w 77;
        eq n (ok s) (ts dec (Buffer.contents b))) encoders)) (range 1 80))

let () = section "c14_decode" (fun () ->
  let go nm dec model al maxl =
    let n = Array.length al in
    let rec words l f pre = if l = 0 then f pre else Array.iter (fun c -> words (l - 1) f (pre ^ String.make 1 c)) al in
    Array.iter (fun c0 -> Array.iter (fun c1 ->
      case (fun () -> Printf.sprintf "%s decoder: all texts of up to %d characters over %S starting with %C%C" nm maxl (String.init n (Array.get al)) c0 c1) (fun () ->
        for l = 0 to maxl - 2 do
          words l (fun s ->
            tr 1; trace (); st_s s;
            let w = model s and g = ts dec s in
            if w <> g then fail "decoding %S: expected %s, got %s" s (show w) (show g)) (String.make 1 c0 ^ String.make 1 c1)
        done)) al) al;
    case (fun () -> nm ^ " decoder: all texts of 0 to 2 characters") (fun () ->
      List.iter (fun s -> let w = model s and g = ts dec s in if w <> g then fail "decoding %S: expected %s, got %s" s (show w) (show g))
        ("" :: List.map (fun i -> String.make 1 (Char.chr i)) (range 0 255));
      for i = 0 to 255 do for j = 0 to 255 do
        let s = String.make 1 (Char.chr i) ^ String.make 1 (Char.chr j) in
        tr 1; let w = model s and g = ts dec s in if w <> g then fail "decoding %S: expected %s, got %s" s (show w) (show g) done done);
    (* any character at any position of valid texts *)
    List.iter (fun base ->
      case (fun () -> Printf.sprintf "%s decoder: any character anywhere in %S" nm base) (fun () ->
        trace ();
        for p = 0 to String.length base - 1 do for v = 0 to 255 do
          st_s (base, p, v);
          List.iter (fun s -> tr 1;
            let w = model s and g = ts dec s in if w <> g then fail "decoding %S: expected %s, got %s" s (show w) (show g))
            [set base p v; Ref.take base p ^ String.make 1 (Char.chr v) ^ Ref.drop base p]
        done done;
        for v = 0 to 255 do let s = base ^ String.make 1 (Char.chr v) in
          let w = model s and g = ts dec s in if w <> g then fail "decoding %S: expected %s, got %s" s (show w) (show g) done))
      (if nm = "hex" then [""; "0f"; "DeAdBeEf"; "01 23\n45"; pat "x" 3 |> Ref.hex] else [""; "QQ=="; "QUI="; "QUJD"; "QUJD REVG"; "////++++"; "AB CD\nEFGH\r\nIJ=="]) in
  go "base64" b64dec b64_decode_model [| 'A'; 'z'; '9'; '+'; '/'; '='; ' '; '\n'; '-'; '\000' |] (pick 5 6);
  go "base64" b64dec b64_decode_model [| 'B'; '/'; '=' |] (pick 9 12);
  go "hex" hexdec hex_decode_model [| '0'; '9'; 'a'; 'F'; ' '; '\r'; 'g'; 'G'; '/'; ':' |] (pick 5 6);
  go "hex" hexdec hex_decode_model [| '7'; 'c'; '\t'; 'x' |] (pick 8 9))

(* ---------------- C15 ---------------- *)
let supported = lazy (match Zlib.compress () with _ -> true | exception Error Compression_not_supported -> false)
let need () = if not (Lazy.force supported) then failwith "this build has no zlib"
let inputs n = [
  "pattern", pat "z" n; "zeros", String.make n '\000';
  "periodic", String.init n (fun i -> Char.chr (97 + (i * i / 7) mod 5));
  "words", String.init n (fun i -> "the quick brown fox jumps over the lazy dog. ".[i mod 45]) ]
let ostr r = match r with Ok s -> "Ok " ^ show s | Error m -> "Error " ^ m

let feed t s = function
  | `Whole -> t#put_string s
  | `Bytes -> String.iter t#put_char s
  | `Chunks k ->
    let l = String.length s in
    let b = Bytes.of_string ("<" ^ s ^ ">") in
    let i = ref 0 in
    while !i < l do let n = min k (l - !i) in t#put_substring b (1 + !i) n; i := !i + n done
let feeds l = [`Whole; `Bytes; `Chunks 3; `Chunks 257]
let feed_name = function `Whole -> "whole" | `Bytes -> "by characters" | `Chunks k -> Printf.sprintf "by %d" k
(* drain after each step or at the end *)
let uncompress ~header ~feed:f s =
  let t = Zlib.uncompress ~expect_zlib_header:header () in
  feed t s f; t#finish; t#get_string

let () = section "c15_roundtrip" (fun () ->
  need ();
  List.iter (fun header ->
    List.iter (fun level ->
      List.iter (fun n ->
        case (fun () -> Printf.sprintf "level %s, %s header, %d bytes" (match level with None -> "default" | Some l -> string_of_int l) (if header then "with" else "no") n) (fun () ->
          List.iter (fun (nm, s) ->
            List.iter (fun f ->
              tr 2; trace (); st_s (header, level, n, nm, f);
              let t = Zlib.compress ?level ~write_zlib_header:header () in
              feed t s f; t#finish;
              let c = t#get_string in
              if f = `Whole || n < 3000 then begin
              (match Inflate.strict ~header c with
               | Ok d -> eqf (fun () -> nm ^ ": reference decompression of the output") s d
               | Error m -> fail "%s: the compressed text is not a valid stream: %s" nm m) end;
              List.iter (fun f2 ->
                if n < 3000 || f2 <> `Bytes then
                eqf (fun () -> Printf.sprintf "%s: decompression (fed %s)" nm (feed_name f2)) s (uncompress ~header ~feed:f2 c)) (if n <= 400 || f = `Whole then feeds n else [`Whole]))
              (if n <= 2000 then feeds n else [`Whole; `Chunks 257])) (inputs n)))
        (pick (range 0 20 @ [63; 255; 256; 257; 400; 511; 512; 513; 1000; 1024; 5000; 33000; 70000])
              (range 0 300 @ [511; 512; 513; 1000; 1023; 1024; 1025; 2048; 5000; 32767; 32768; 33000; 65535; 65536; 70000; 300000; 1000000])))
      [None; Some 1; Some 2; Some 3; Some 4; Some 5; Some 6; Some 7; Some 8; Some 9]) [false; true])

(* the documented defaults: level 6, no header; and the level matters *)
let () = section "c15_defaults" (fun () ->
  need ();
  let z ?level ?write_zlib_header s = transform_string (Zlib.compress ?level ?write_zlib_header ()) s in
  let text n = let b = Buffer.create n in
    let i = ref 0 in
    while Buffer.length b < n do
      let p = pat (string_of_int (!i * !i mod 977)) 40 in
      Buffer.add_string b (String.sub p 0 (3 + !i mod 29)); incr i done;
    Buffer.sub b 0 n in
  List.iter (fun n ->
    case (fun () -> Printf.sprintf "default level and header, %d bytes" n) (fun () ->
      trace (); tr 6;
      let s = text n in
      eq "compress () is compress ~level:6 ~write_zlib_header:false ()" (z ~level:6 ~write_zlib_header:false s) (z s);
      eq "the default of write_zlib_header is false" (z ~level:9 ~write_zlib_header:false s) (z ~level:9 s);
      eq "the default of level is 6" (z ~level:6 ~write_zlib_header:true s) (z ~write_zlib_header:true s);
      eq "the default of expect_zlib_header is false" s (transform_string (Zlib.uncompress ()) (z s));
      eq "expect_zlib_header" s (transform_string (Zlib.uncompress ~expect_zlib_header:true ()) (z ~write_zlib_header:true s));
      if n >= 50_000 then begin
        let l k = String.length (z ~level:k s) in
        if not (l 9 < l 1) then fail "level 9 gives %d bytes, level 1 gives %d" (l 9) (l 1);
        if not (l 9 <= l 6 && l 6 <= l 1) then fail "sizes at levels 1, 6, 9: %d, %d, %d" (l 1) (l 6) (l 9)
      end)) [0; 1; 10; 100; 1000; 5000; 20_000; 50_000; 200_000];
  (* a text on which zlib's levels all give different sizes: each level asked for is the level used *)
  let words = lazy (
    let b = Buffer.create 210_000 and x = ref 1 in
    while Buffer.length b < 200_000 do
      x := (!x * 1103515245 + 12345) land 0x7fffffff;
      let w = pat (string_of_int ((!x lsr 8) mod 50)) 12 in
      String.iter (fun c -> Buffer.add_char b (Char.chr (97 + Char.code c mod 6))) (String.sub w 0 (2 + (!x lsr 16) mod 10));
      Buffer.add_char b ' '
    done; Buffer.sub b 0 200_000) in
  let letters = lazy (String.map (fun c -> Char.chr (97 + Char.code c mod 2)) (pat "x" 60_000)) in
  List.iter (fun header ->
    let size s level = String.length (z ~level ~write_zlib_header:header s) in
    let differ s l l' = if not (size s l > size s l') then fail "header %b: %d bytes at level %d, %d at level %d" header (size s l) l (size s l') l' in
    for l = 1 to 7 do
      case (fun () -> Printf.sprintf "level %d against level %d, header %b" l (l + 1) header) (fun () -> trace (); tr 2; differ (Lazy.force words) l (l + 1))
    done;
    case (fun () -> Printf.sprintf "level 8 against level 9, header %b" header) (fun () ->
      trace (); tr 2;
      if z ~level:8 ~write_zlib_header:header (Lazy.force letters) = z ~level:9 ~write_zlib_header:header (Lazy.force letters) then fail "header %b: levels 8 and 9 give the same text" header)) [false; true])

(* all histories of puts, flushes and reads *)
let () = section "c15_histories" (fun () ->
  need ();
  let pieces = [| ""; "a"; pat "zz" 300; String.make 2000 'x'; pat "inc" 1500 |] in
  (* ops: 0..4 put piece i; 5 flush; 6 get_string; 7 get_substring *)
  let nops = 8 in
  let depth = pick 4 5 in
  let rec count d = if d = 0 then 1 else nops * count (d - 1) in
  List.iter (fun header ->
    for w0 = 0 to nops * nops - 1 do
      case (fun () -> Printf.sprintf "compress histories starting with ops %d,%d%s" (w0 / nops) (w0 mod nops) (if header then ", header" else "")) (fun () ->
        for rest = 0 to count (depth - 2) - 1 do
          let ops = (w0 / nops) :: (w0 mod nops) :: List.init (depth - 2) (fun i -> (rest / count i) mod nops) in
          trace ();
          let t = Zlib.compress ~write_zlib_header:header () in
          let inp = Buffer.create 100 and outb = Buffer.create 100 in
          let drain () = Buffer.add_string outb t#get_string in
          List.iter (fun o -> tr 1; st_s (header, o, Buffer.length inp, Buffer.length outb, t#available_output);
            if o < 5 then (t#put_string pieces.(o); Buffer.add_string inp pieces.(o))
            else if o = 5 then begin
              t#flush; drain ();
              eqf (fun () -> "data recoverable after flush, ops " ^ String.concat "," (List.map string_of_int ops))
                (Buffer.contents inp) (Inflate.prefix ~header (Buffer.contents outb));
              (* and through the library *)
              let u = Zlib.uncompress ~expect_zlib_header:header () in
              u#put_string (Buffer.contents outb); u#flush;
              eq "decompressor output after flush" (Buffer.contents inp) u#get_string
            end
            else if o = 6 then drain ()
            else (let (b, p, l) = t#get_substring in Buffer.add_subbytes outb b p l)) ops;
          t#finish; drain ();
          let c = Buffer.contents outb in
          (match Inflate.strict ~header c with
           | Ok d -> eqf (fun () -> "ops " ^ String.concat "," (List.map string_of_int ops)) (Buffer.contents inp) d
           | Error m -> fail "ops %s: invalid stream: %s" (String.concat "," (List.map string_of_int ops)) m);
          (* the same operations as a feeding schedule of the decompressor *)
          let u = Zlib.uncompress ~expect_zlib_header:header () in
          let got = Buffer.create 100 in
          let pos = ref 0 in
          List.iter (fun o ->
            let k = [| 0; 1; 300; 2000; 97 |] in
            if o < 5 then begin let n = min k.(o) (String.length c - !pos) in
              u#put_substring (Bytes.of_string c) !pos n; pos := !pos + n end
            else if o = 5 then u#flush
            else Buffer.add_string got u#get_string) ops;
          u#put_string (Ref.drop c !pos); u#finish; Buffer.add_string got u#get_string;
          eqf (fun () -> "decompression schedule " ^ String.concat "," (List.map string_of_int ops)) (Buffer.contents inp) (Buffer.contents got)
        done)
    done) [false; true];
  (* several flushes, and flushes with a nearly full output buffer: every length *)
  List.iter (fun header ->
    for n = 0 to pick 600 1400 do
      case (fun () -> Printf.sprintf "flush after %d incompressible bytes, without reading%s" n (if header then ", header" else "")) (fun () ->
        let t = Zlib.compress ~write_zlib_header:header () in
        let s = pat "fl" n in
        t#put_string s; t#flush; trace (); tr 5; st2 n 4321;
        let c1 = t#get_string in
        eq "after flush" s (Inflate.prefix ~header c1);
        t#flush; t#put_string s; t#flush; t#flush;
        let c2 = t#get_string in
        eq "after second flush" (s ^ s) (Inflate.prefix ~header (c1 ^ c2));
        t#put_string "end"; t#finish;
        (match Inflate.strict ~header (c1 ^ c2 ^ t#get_string) with
         | Ok d -> eq "whole" (s ^ s ^ "end") d | Error m -> fail "whole stream: %s" m))
    done) [false; true])

(* streams made by hand: stored and fixed blocks *)
let stored ?(last = true) s =
  let l = String.length s in
  let b = Buffer.create (l + 5) in
  Buffer.add_char b (if last then '\001' else '\000');
  Buffer.add_uint16_le b l; Buffer.add_uint16_le b (lnot l land 0xffff); Buffer.add_string b s; Buffer.contents b
let zwrap raw data =
  let b = Buffer.create 100 in
  Buffer.add_string b "\x78\x9c"; Buffer.add_string b raw; Buffer.add_int32_be b (Int32.of_int (Inflate.adler32 data)); Buffer.contents b
let bases header =
  let z s = transform_string (Zlib.compress ~write_zlib_header:header ()) s in
  let w raw d = if header then zwrap raw d else raw in
  [ "empty", z ""; "one byte", z "a"; "fixed block", z "hello hello hello hello"; 
    "dynamic block", z (String.init 700 (fun i -> Char.chr (97 + (i * i / 7) mod 23)));
    "stored block", w (stored (pat "st" 40)) (pat "st" 40);
    "two stored blocks", w (stored ~last:false "abc" ^ stored "defg") "abcdefg";
    "long runs", z (String.make 3000 'r') ]
let () = section "c15_damage" (fun () ->
  need ();
  List.iter (fun header ->
    List.iter (fun (nm, base) ->
      let chk what s =
        let want = Inflate.strict ~header s in
        List.iter (fun f ->
          tr 1;
          match want, uncompress ~header ~feed:f s with
          | Ok d, d' -> eqf (fun () -> what () ^ ", fed " ^ feed_name f) d d'
          | Error m, d -> fail "%s, fed %s: accepted (%s), although: %s" (what ()) (feed_name f) (show d) m
          | exception Error (Compression_error _) ->
            (match want with Ok d -> fail "%s, fed %s: Compression_error on a valid stream" (what ()) (feed_name f) | Error _ -> ()))
          [`Whole; `Bytes; `Chunks 7] in
      let go w f = case (fun () -> Printf.sprintf "%s (%d bytes)%s: %s" nm (String.length base) (if header then " with header" else "") w) (fun () -> trace (); f ()) in
      go "genuine, all truncations" (fun () ->
        chk (fun () -> "genuine") base;
        for i = 0 to String.length base - 1 do st_s (nm, header, i); chk (fun () -> Printf.sprintf "first %d bytes" i) (Ref.take base i) done);
      go "trailing bytes" (fun () ->
        for v = 0 to 255 do st_s (nm, header, v, 1); chk (fun () -> Printf.sprintf "byte %d appended" v) (base ^ String.make 1 (Char.chr v)) done;
        List.iter (fun k -> chk (fun () -> Printf.sprintf "%d zeros appended" k) (base ^ Ref.zeros k)) (range 1 20 @ [600]);
        chk (fun () -> "doubled") (base ^ base));
      for part = 0 to 7 do
        go (Printf.sprintf "bit %d of every byte flipped" part) (fun () ->
          String.iteri (fun p c -> st_s (nm, header, p, part, 2);
            chk (fun () -> Printf.sprintf "bit %d of byte %d flipped" part p) (set base p (Char.code c lxor (1 lsl part)))) base)
      done;
      go "every byte replaced, removed, inserted" (fun () ->
        String.iteri (fun p c ->
          List.iter (fun v -> st_s (nm, header, p, v, 3); chk (fun () -> Printf.sprintf "byte %d := %d" p v) (set base p v)) (pick [0; 255; 0x55] (range 0 255));
          chk (fun () -> Printf.sprintf "byte %d removed" p) (Ref.take base p ^ Ref.drop base (p + 1));
          chk (fun () -> Printf.sprintf "byte 0 inserted at %d" p) (Ref.take base p ^ "\000" ^ Ref.drop base p)) base);
      if header then go "all header values" (fun () ->
        for a = 0 to 255 do for b = 0 to 255 do
          if (nm = "one byte" || a = 0x78) then begin
          st_s (nm, a, b);
          let s = set (set base 0 a) 1 b in
          tr 1;
          match Inflate.strict ~header s, uncompress ~header ~feed:`Whole s with
          | Ok d, d' -> eq "header" d d'
          | Error m, d -> fail "header %02x%02x accepted (%s), although: %s" a b (show d) m
          | exception Error (Compression_error _) ->
            (match Inflate.strict ~header s with Ok _ -> fail "valid header %02x%02x refused" a b | Error _ -> ()) end
        done done);
      go "wrong envelope" (fun () ->
        (* raw stream where an envelope is expected and conversely: never wrong data *)
        let h = not header in
        match Inflate.strict ~header:h base, uncompress ~header:h ~feed:`Whole base with
        | Ok d, d' -> eq "envelope" d d'
        | Error m, d -> fail "accepted (%s), although: %s" (show d) m
        | exception Error (Compression_error _) -> ()))
      (bases header)) [false; true];
  (* all short inputs *)
  List.iter (fun header ->
    for a = 0 to 255 do
      case (fun () -> Printf.sprintf "all 1- and 2-byte inputs starting with %d%s" a (if header then ", header" else "")) (fun () ->
        let chk s = tr 1; st_s (header, s);
          match Inflate.strict ~header s, uncompress ~header ~feed:`Whole s with
          | Ok d, d' -> eqf (fun () -> show s) d d'
          | Error m, d -> fail "%s accepted (%s), although: %s" (show s) (show d) m
          | exception Error (Compression_error _) ->
            (match Inflate.strict ~header s with Ok _ -> fail "valid stream %s refused" (show s) | Error _ -> ()) in
        chk (String.make 1 (Char.chr a));
        for b = 0 to 255 do
          let s = String.make 1 (Char.chr a) ^ String.make 1 (Char.chr b) in
          chk s; chk (s ^ "\000"); chk (s ^ "\003\000"); chk (s ^ "\003\000\000\000\000\001")
        done)
    done) [false; true])
