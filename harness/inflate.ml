(* Reference inflater (RFC 1950/1951), one-shot, bit by bit. *)
exception Bad of string
exception Eof
type r = { data : string; used : int; complete : bool }   (* used: bytes consumed when complete *)

let adler32 s =
  let a = ref 1 and b = ref 0 in
  String.iter (fun c -> a := (!a + Char.code c) mod 65521; b := (!b + !a) mod 65521) s;
  (!b lsl 16) lor !a

(* canonical code: array of (length) -> decoding by walking lengths *)
type code = { count : int array; syms : int array }
let mk_code kind lens =
  let count = Array.make 16 0 in
  Array.iter (fun l -> count.(l) <- count.(l) + 1) lens;
  let n = Array.length lens - count.(0) in
  count.(0) <- 0;
  let left = ref 1 in
  for l = 1 to 15 do
    left := !left * 2 - count.(l);
    if !left < 0 then raise (Bad "over-subscribed code")
  done;
  let maxl = let m = ref 0 in for l = 1 to 15 do if count.(l) > 0 then m := l done; !m in
  if !left > 0 && n > 0 && (kind = `Codes || maxl <> 1) then raise (Bad "incomplete code");
  if n = 0 && kind = `Codes then raise (Bad "no code lengths");
  let offs = Array.make 17 0 in
  for l = 1 to 15 do offs.(l + 1) <- offs.(l) + count.(l) done;
  let syms = Array.make (max n 1) 0 in
  Array.iteri (fun s l -> if l > 0 then (syms.(offs.(l)) <- s; offs.(l) <- offs.(l) + 1)) lens;
  { count; syms }

let lbase = [|3;4;5;6;7;8;9;10;11;13;15;17;19;23;27;31;35;43;51;59;67;83;99;115;131;163;195;227;258|]
let lext = [|0;0;0;0;0;0;0;0;1;1;1;1;2;2;2;2;3;3;3;3;4;4;4;4;5;5;5;5;0|]
let dbase = [|1;2;3;4;5;7;9;13;17;25;33;49;65;97;129;193;257;385;513;769;1025;1537;2049;3073;4097;6145;8193;12289;16385;24577|]
let dext = [|0;0;0;0;1;1;2;2;3;3;4;4;5;5;6;6;7;7;8;8;9;9;10;10;11;11;12;12;13;13|]
let order = [|16;17;18;0;8;7;9;6;10;5;11;4;12;3;13;2;14;1;15|]

(* decode a raw deflate stream starting at byte [pos]; on premature end, returns what was decoded *)
let raw s pos =
  let out = Buffer.create 1000 in
  let bp = ref (8 * pos) in
  let total = 8 * String.length s in
  let bit () =
    if !bp >= total then raise Eof;
    let b = (Char.code s.[!bp lsr 3] lsr (!bp land 7)) land 1 in incr bp; b in
  let bits n = let v = ref 0 in for i = 0 to n - 1 do v := !v lor (bit () lsl i) done; !v in
  let sym c =
    let code = ref 0 and first = ref 0 and index = ref 0 in
    let rec go l =
      if l > 15 then raise (Bad "invalid code");
      code := !code lor bit ();
      let n = c.count.(l) in
      if !code - n < !first then c.syms.(!index + !code - !first)
      else begin index := !index + n; first := (!first + n) lsl 1; code := !code lsl 1; go (l + 1) end in
    go 1 in
  let codes lit dist =
    let rec go () =
      let s = sym lit in
      if s < 256 then (Buffer.add_char out (Char.chr s); go ())
      else if s > 256 then begin
        let s = s - 257 in
        if s >= 29 then raise (Bad "invalid length code");
        let len = lbase.(s) + bits lext.(s) in
        let d = sym dist in
        if d >= 30 then raise (Bad "invalid distance code");
        let d = dbase.(d) + bits dext.(d) in
        if d > Buffer.length out then raise (Bad "distance too far back");
        for _ = 1 to len do Buffer.add_char out (Buffer.nth out (Buffer.length out - d)) done;
        go ()
      end in
    go () in
  let fixed_lit = lazy (mk_code `Lens (Array.init 288 (fun i -> if i < 144 then 8 else if i < 256 then 9 else if i < 280 then 7 else 8))) in
  let fixed_dist = lazy (mk_code `Dists (Array.make 32 5)) in
  let rec block () =
    let last = bit () in
    (match bits 2 with
     | 0 ->
       bp := (!bp + 7) land (lnot 7);
       let len = bits 16 in let nlen = bits 16 in
       if len <> (lnot nlen) land 0xffff then raise (Bad "stored length");
       for _ = 1 to len do Buffer.add_char out (Char.chr (bits 8)) done
     | 1 -> codes (Lazy.force fixed_lit) (Lazy.force fixed_dist)
     | 2 ->
       let hlit = bits 5 + 257 in let hdist = bits 5 + 1 in let hclen = bits 4 + 4 in
       if hlit > 286 || hdist > 30 then raise (Bad "too many symbols");
       let cl = Array.make 19 0 in
       for i = 0 to hclen - 1 do cl.(order.(i)) <- bits 3 done;
       let cc = mk_code `Codes cl in
       let lens = Array.make (hlit + hdist) 0 in
       let i = ref 0 in
       while !i < hlit + hdist do
         match sym cc with
         | s when s < 16 -> lens.(!i) <- s; incr i
         | s ->
           let v, n = match s with
             | 16 -> if !i = 0 then raise (Bad "repeat without length"); let n = 3 + bits 2 in lens.(!i - 1), n
             | 17 -> 0, 3 + bits 3
             | _ -> 0, 11 + bits 7 in
           if !i + n > hlit + hdist then raise (Bad "repeat too long");
           for _ = 1 to n do lens.(!i) <- v; incr i done
       done;
       if lens.(256) = 0 then raise (Bad "missing end-of-block");
       codes (mk_code `Lens (Array.sub lens 0 hlit)) (mk_code `Dists (Array.sub lens hlit hdist))
     | _ -> raise (Bad "block type"));
    if last = 0 then block () in
  match block () with
  | () -> Ok { data = Buffer.contents out; used = (!bp + 7) / 8 - pos; complete = true }
  | exception Eof -> Ok { data = Buffer.contents out; used = String.length s - pos; complete = false }
  | exception Bad m -> Error m

(* whole stream, raw or with the zlib envelope; Ok data only for a complete stream with nothing after it *)
let strict ~header s =
  let l = String.length s in
  if not header then
    match raw s 0 with
    | Ok { complete = true; used; data } when used = l -> Ok data
    | Ok { complete = true } -> Error "trailing data"
    | Ok _ -> Error "truncated"
    | Error m -> Error m
  else begin
    if l < 2 then Error "truncated" else
    let cmf = Char.code s.[0] and flg = Char.code s.[1] in
    if cmf land 15 <> 8 || cmf lsr 4 > 7 || (cmf * 256 + flg) mod 31 <> 0 || flg land 32 <> 0 then Error "header" else
    match raw s 2 with
    | Ok { complete = true; used; data } ->
      if l < 2 + used + 4 then Error "truncated"
      else if Int32.to_int (String.get_int32_be s (2 + used)) land 0xffffffff <> adler32 data then Error "checksum"
      else if l > 2 + used + 4 then Error "trailing data"
      else Ok data
    | Ok _ -> Error "truncated"
    | Error m -> Error m
  end
(* data decodable from a prefix *)
let prefix ~header s = match raw s (if header then 2 else 0) with Ok r -> r.data | Error m -> raise (Bad m)
