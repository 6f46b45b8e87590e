(* C32: what the objects announce about themselves (sizes of blocks, digests,
   tags, available output) is true, at every moment of their life. *)
open Cryptokit
open E
open Objs

let has_prefix p s = String.length s >= String.length p && String.sub s 0 (String.length p) = p

(* expected (input, output) block sizes of a transform of the catalogue;
   None: only the truth of the announcement is asked for *)
let announced_transforms () =
  let padded dir u = if dir = Cipher.Encrypt then (1, u) else (u, 1) in
  let cip = List.concat_map (fun bk ->
      List.concat_map (fun m -> List.concat_map (fun pad -> List.map (fun dir ->
        let u = mode_unit bk.bbs m in
        (of_cipher bk m pad dir, Some (if pad = No then (u, u) else padded dir u), true)) [Cipher.Encrypt; Decrypt])
        [No; Len; P8000]) (all_modes bk.bbs)) bks in
  let str = List.map (fun t -> (t, Some (1, 1), true)) (streams ()) in
  let cod = List.map (fun t -> (t, Some (1, 1), t.name <> "hex/decode")) (codecs ()) in
  let toy = List.map (fun t ->
      let u = Scanf.sscanf t.name "toy%d/" (fun n -> n) in
      let k = String.sub t.name (String.index t.name '/' + 1) (String.length t.name - String.index t.name '/' - 1) in
      (t, Some (match k with "cipher" -> (u, u) | "padenc" -> (1, u) | _ -> (u, 1)), true)) (toys ()) in
  cip @ str @ cod @ toy

(* lengths to try for a unit of u *)
let lengths u = List.sort_uniq compare ([0; 1; 2; 3] @ List.concat_map (fun k -> [k * u - 1; k * u; k * u + 1]) [1; 2; 3])
let sizes u = List.sort_uniq compare (List.filter (fun n -> n >= 0) [0; 1; u - 1; u; u + 1; 2 * u])

(* the announcements never change, and what is available is what comes out *)
let probe name (t : transform) (i, o) =
  eqi (name ^ ": input_block_size") i t#input_block_size;
  eqi (name ^ ": output_block_size") o t#output_block_size

(* take the output in one of three ways, comparing with the announced amount *)
let drain name how avail get_string get_substring get_char =
  let n = avail () in
  if n < 0 then fail "%s: available_output is %d" name n;
  let got = match how with
    | 0 -> String.length (get_string ())
    | 1 -> let (_, _, l) = get_substring () in l
    | _ ->
      for k = 1 to n do
        (match get_char () with (_ : char) -> () | exception End_of_file -> fail "%s: available_output announced %d, end of file after %d" name n (k - 1));
        eqi (name ^ ": available_output after a character was taken") (n - k) (avail ())
      done; n in
  eqi (name ^ ": output obtained, against available_output") n got;
  eqi (name ^ ": available_output once everything was taken") 0 (avail ());
  (match get_char () with (_ : char) -> fail "%s: a character came out although available_output was 0" name | exception End_of_file -> ());
  got

let run_transform (t : t) ann pieces how =
  trace ();
  let x = t.mk () in
  let (i, o) = ann in
  let total = List.fold_left (+) 0 pieces in
  let data = t.gen "announced" total in
  let out = ref 0 and pos = ref 0 in
  let take () =
    out := !out + drain t.name how (fun () -> x#available_output) (fun () -> x#get_string) (fun () -> x#get_substring) (fun () -> x#get_char);
    if !out mod o <> 0 then fail "%s: %d bytes of output produced, not a multiple of output_block_size = %d" t.name !out o in
  probe t.name x ann;
  List.iter (fun n ->
    tr 1; x#put_string (String.sub data !pos n); pos := !pos + n; probe t.name x ann; take ();
    st_s (Printf.sprintf "%s %d %d" t.name !pos !out)) pieces;
  (match x#finish with
   | () ->
     if total mod i <> 0 then fail "%s: %d bytes of input accepted although input_block_size is %d" t.name total i;
     probe t.name x ann; take ()
   | exception Error Wrong_data_length ->
     if total mod i = 0 && total >= t.minl then fail "%s: Wrong_data_length for %d bytes of input although input_block_size is %d" t.name total i);
  x#wipe

let () = section "c32_transforms" (fun () ->
  List.iter (fun (t, ann, _) ->
    match ann with None -> () | Some ann ->
    let u = max (fst ann) (snd ann) in
    let deep = not (String.contains t.name '/') || has_prefix "aes128" t.name || has_prefix "des" t.name || not (quick ()) in
    (* malformed texts are the business of C14: only lengths that make sense there *)
    let okl ps = not (has_prefix "hex/dec" t.name || has_prefix "b64/dec" t.name)
      || has_prefix "ok:" (t.model (t.gen "announced" (List.fold_left (+) 0 ps))) in
    let one ps how =
      if okl ps then
        case (fun () -> Printf.sprintf "%s pieces %s, output taken %s" t.name (String.concat "+" (List.map string_of_int ps))
                 [| "at once"; "as a substring"; "by characters" |].(how))
          (fun () -> run_transform t ann ps how) in
    List.iter (fun n -> if n >= 0 then List.iter (one [n]) [0; 1; 2]) (lengths u);
    let s = if deep then sizes u else List.sort_uniq compare [1; u; u + 1] in
    List.iter (fun a -> List.iter (fun b ->
      List.iter (fun how -> one [a; b] how) [0; 1; 2];
      if deep then List.iter (fun c -> one [a; b; c] 2; if not (quick ()) then List.iter (fun d -> one [a; b; c; d] 0) s) s) s) s)
    (announced_transforms ()))

(* flush: allowed exactly at the multiples of the announced unit *)
let () = section "c32_flush" (fun () ->
  List.iter (fun (t, ann, _) ->
    match ann with
    | Some (i, o) when i > 1 && i = o ->
      for n = 0 to 3 * i do
        case (fun () -> Printf.sprintf "%s flush after %d bytes" t.name n) (fun () ->
          trace (); tr 2;
          let x = t.mk () in
          x#put_string (t.gen "announced" n);
          (match x#flush with
           | () -> if n mod i <> 0 then fail "%s: flush accepted after %d bytes although input_block_size is %d" t.name n i;
             eqi (t.name ^ ": output after a flush") n x#available_output
           | exception Error Wrong_data_length ->
             if n mod i = 0 then fail "%s: flush refused after %d bytes although input_block_size is %d" t.name n i);
          x#wipe)
      done
    | _ -> ()) (announced_transforms ()))

(* compositions: the input of the first, the output of the second *)
let () = section "c32_compose" (fun () ->
  let pool = List.filter (fun (t, _, _) -> List.mem t.name
      ["aes128/CBC/nopad/enc"; "aes128/CBC/length/enc"; "aes128/CBC/length/dec"; "aes128/CFB9/nopad/enc"; "des/ECB/nopad/enc"; "des/OFB7/8000/enc";
       "chacha20/32/8/enc"; "hex/encode"; "hex/decode"; "b64/pad"; "b64/decode"; "toy5/cipher"; "toy2/padenc"; "toy100/paddec"]) (announced_transforms ()) in
  let get = function Some a -> a | None -> assert false in
  List.iter (fun (t1, a1, _) -> List.iter (fun (t2, a2, _) ->
    case (fun () -> Printf.sprintf "compose %s %s" t1.name t2.name) (fun () ->
      trace (); tr 1;
      let name = "compose " ^ t1.name ^ " " ^ t2.name in
      let ann = (fst (get a1), snd (get a2)) in
      let x = compose (t1.mk ()) (t2.mk ()) in
      probe name x ann;
      if t1.name <> "hex/decode" && t1.name <> "b64/decode" && t2.name <> "hex/decode" && t2.name <> "b64/decode" then begin
        x#put_string (t1.gen "announced" (3 * fst ann));
        probe name x ann;
        ignore (drain name 2 (fun () -> x#available_output) (fun () -> x#get_string) (fun () -> x#get_substring) (fun () -> x#get_char))
      end;
      List.iter (fun (t3, a3, _) ->
        let y = compose (compose (t1.mk ()) (t2.mk ())) (t3.mk ()) and z = compose (t1.mk ()) (compose (t2.mk ()) (t3.mk ())) in
        let ann = (fst (get a1), snd (get a3)) in
        tr 2; probe (name ^ " " ^ t3.name) y ann; probe (name ^ " " ^ t3.name) z ann) pool)) pool) pool;
  if Lazy.force P_codec.supported then begin
    let z1 header () = Zlib.compress ~write_zlib_header:header () and z2 header () = Zlib.uncompress ~expect_zlib_header:header () in
    List.iter (fun header -> List.iter (fun n ->
      case (fun () -> Printf.sprintf "zlib, header %b, %d bytes" header n) (fun () ->
        trace (); tr 2;
        let s = pat "z" n in
        let d name x how = drain name how (fun () -> x#available_output) (fun () -> x#get_string) (fun () -> x#get_substring) (fun () -> x#get_char) in
        let c = z1 header () in
        probe "Zlib.compress" c (1, 1);
        c#put_string s; c#flush; probe "Zlib.compress" c (1, 1); ignore (d "Zlib.compress" c (n mod 3)); c#finish; probe "Zlib.compress" c (1, 1);
        ignore (d "Zlib.compress" c (n mod 3)); c#wipe;
        let txt = transform_string (z1 header ()) s in
        let u = z2 header () in
        probe "Zlib.uncompress" u (1, 1);
        u#put_string txt; probe "Zlib.uncompress" u (1, 1);
        let k = d "Zlib.uncompress" u (n mod 3) in
        u#finish; eqi "Zlib.uncompress: output" n (k + d "Zlib.uncompress" u (n mod 3)); u#wipe))
      (List.init (pick 70 300) (fun i -> i) @ [1023; 1024; 1025; 5000])) [true; false]
  end)

let () = section "c32_auths" (fun () ->
  let exp (a : a) = match String.index_opt a.an '(' with
    | None -> (1, 1)
    | Some p ->
      let inner = String.sub a.an (p + 1) (String.index a.an ',' - p - 1) in
      let (_, ann, _) = List.find (fun (t, _, _) -> t.name = inner) (announced_transforms ()) in
      (match ann with Some a -> a | None -> assert false) in
  List.iter (fun (a : a) ->
    let (i, o) = exp a in
    let u = max i o in
    let probe (x : authenticated_transform) =
      eqi (a.an ^ ": input_block_size") i x#input_block_size;
      eqi (a.an ^ ": output_block_size") o x#output_block_size;
      eqi (a.an ^ ": tag_size") a.atag x#tag_size in
    let u = if u = 1 then 16 else u in
    let run ps how =
      let total = List.fold_left (+) 0 ps in
      if total mod a.aiu = 0 then
      case (fun () -> Printf.sprintf "%s pieces %s, reading %d" a.an (String.concat "+" (List.map string_of_int ps)) how) (fun () ->
        trace ();
        let x = a.amk () in
        let data = a.agen "announced" total in
        let pos = ref 0 and out = ref 0 in
        let take () =
          out := !out + drain a.an how (fun () -> x#available_output) (fun () -> x#get_string) (fun () -> x#get_substring) (fun () -> x#get_char);
          if !out mod o <> 0 then fail "%s: %d bytes of output, output_block_size = %d" a.an !out o in
        probe x;
        List.iter (fun n -> tr 1; x#put_string (String.sub data !pos n); pos := !pos + n; probe x; take ()) ps;
        (match x#finish_and_get_tag with
         | tag -> eqi (a.an ^ ": length of the tag, against tag_size") x#tag_size (String.length tag); probe x; take ()
         | exception Error (Wrong_data_length | Bad_padding) when (match a.amodel data with Error _ -> true | Ok _ -> false) -> ());
        x#wipe) in
    let s = if quick () && has_prefix "and_" a.an then [0; 1; u; u + 1] else sizes u in
    List.iter (fun n -> for how = 0 to 2 do run [n] how done) s;
    List.iter (fun p -> List.iter (fun q -> run [p; q] 2) s) s) (auths ()))

let () = section "c32_hashes" (fun () ->
  let one name sz (mk : unit -> hash) ps =
    case (fun () -> Printf.sprintf "%s pieces %s" name (String.concat "+" (List.map string_of_int ps))) (fun () ->
      trace ();
      let h = mk () in
      eqi (name ^ ": hash_size") sz h#hash_size;
      List.iter (fun n -> tr 1; h#add_string (pat "announced" n); eqi (name ^ ": hash_size") sz h#hash_size) ps;
      let r = h#result in
      eqi (name ^ ": length of the result") sz (String.length r);
      eqi (name ^ ": hash_size after the result") sz h#hash_size;
      h#wipe) in
  List.iter (fun h ->
    let u = h.hblk in
    let s = List.filter (fun n -> n mod h.iuh = 0) (sizes u @ [3 * u]) in
    List.iter (fun a -> one h.hn h.hsz h.hmk [a]; List.iter (fun b -> one h.hn h.hsz h.hmk [a; b]) s) s) (all_hashes ());
  let k n = key n in
  let sized name mx mk = for b = 1 to mx do List.iter (fun n -> one (Printf.sprintf "%s %d" name (8 * b)) b (fun () -> mk (8 * b)) [n]) [0; 1; 200] done in
  sized "Hash.blake2b" 64 (fun n -> Hash.blake2b n); sized "Hash.blake2s" 32 (fun n -> Hash.blake2s n);
  sized "Hash.blake3" (pick 300 1200) (fun n -> Hash.blake3 n);
  sized "MAC.blake2b" 64 (fun n -> MAC.blake2b n (k 20)); sized "MAC.blake2s" 32 (fun n -> MAC.blake2s n (k 20));
  sized "MAC.blake3" (pick 300 1200) (fun n -> MAC.blake3 n (k 32)))

(* block ciphers: exactly blocksize bytes are read and written *)
let () = section "c32_blocks" (fun () ->
  let check name u (mk : unit -> Block.block_cipher) =
    List.iter (fun off ->
      case (fun () -> Printf.sprintf "%s at %d" name off) (fun () ->
        trace ();
        let run src =
          let c = mk () in
          eqi (name ^ ": blocksize") u c#blocksize;
          let dst = Bytes.make (u + 2 * off + 40) '\xee' in
          c#transform src off dst (off + 1); tr 1;
          eqi (name ^ ": blocksize") u c#blocksize;
          Bytes.to_string dst in
        let src v w = Bytes.init (u + 2 * off) (fun i -> if i < off then v else if i >= off + u then w else Char.chr ((i * 7 + 3) land 255)) in
        let d1 = run (src 'a' 'b') in
        eq (name ^ ": output, with other bytes around the block") d1 (run (src 'x' 'y'));
        String.iteri (fun i ch -> if (i < off + 1 || i >= off + 1 + u) && ch <> '\xee' then fail "%s: byte %d written, outside the block of %d at %d" name i u (off + 1)) d1))
      [0; 1; 5; 16] in
  List.iter (fun bk ->
    check (bk.bn ^ " encrypt") bk.bbs (fun () -> bk.benc bk.bkey); check (bk.bn ^ " decrypt") bk.bbs (fun () -> bk.bdec bk.bkey);
    let u = bk.bbs in
    let iv = ivs u in
    let m name v mk = check (bk.bn ^ " " ^ name) v mk in
    m "cbc_encrypt" u (fun () -> (new Block.cbc_encrypt ~iv (bk.benc bk.bkey) :> Block.block_cipher));
    m "cbc_decrypt" u (fun () -> (new Block.cbc_decrypt ~iv (bk.bdec bk.bkey) :> Block.block_cipher));
    m "ctr" u (fun () -> (new Block.ctr ~iv (bk.benc bk.bkey) :> Block.block_cipher));
    for n = 1 to u do
      m (Printf.sprintf "cfb_encrypt %d" n) n (fun () -> (new Block.cfb_encrypt ~iv n (bk.benc bk.bkey) :> Block.block_cipher));
      m (Printf.sprintf "cfb_decrypt %d" n) n (fun () -> (new Block.cfb_decrypt ~iv n (bk.benc bk.bkey) :> Block.block_cipher));
      m (Printf.sprintf "ofb %d" n) n (fun () -> (new Block.ofb ~iv n (bk.benc bk.bkey) :> Block.block_cipher));
      m (Printf.sprintf "ctr inc %d" n) u (fun () -> (new Block.ctr ~iv ~inc:n (bk.benc bk.bkey) :> Block.block_cipher))
    done) bks)

let uniq = ()
