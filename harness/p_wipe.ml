(* C23 wiping: lock-step comparison of two executions that differ only in their secrets *)
open E
open Objs
open Cryptokit
let uniq = ()
external dump : Obj.t -> string list -> bool -> bool -> string = "vw_dump"
external rec_ : bool -> Obj.t = "vw_rec"
external module_root : unit -> Obj.t = "vw_module"
let rec_on () = ignore (rec_ true)
let rec_off () : int * int = Obj.obj (rec_ false)

(* an object under test, for the secret variant v *)
type w = {
  av : unit -> int;                            (* amount of output pending *)
  o : Obj.t; mine : string list;              (* strings owned by the caller *)
  put : string -> unit; put1 : char -> unit; putb : int -> unit; putsub : bytes -> int -> int -> unit; get1 : unit -> unit; getn : unit -> unit; getall : unit -> unit; flush : unit -> unit;
  fin : unit -> unit; wipe : unit -> unit }
let of_t mine (t : transform) = { av = (fun () -> t#available_output); o = Obj.repr t; mine; put1 = t#put_char; putb = t#put_byte; putsub = t#put_substring; put = t#put_string; get1 = (fun () -> ignore t#get_char);
  getn = (fun () -> let (b, o, n) = t#get_substring in ignore (b, o, n)); getall = (fun () -> ignore t#get_string); flush = (fun () -> t#flush); fin = (fun () -> t#finish); wipe = (fun () -> t#wipe) }
let of_h mine (h : hash) = { av = (fun () -> 0); o = Obj.repr h; mine; put1 = h#add_char; putb = h#add_byte; putsub = h#add_substring; put = h#add_string; get1 = (fun () -> ()); getn = (fun () -> ()); getall = (fun () -> ()); flush = (fun () -> ());
  fin = (fun () -> ignore h#result); wipe = (fun () -> h#wipe) }
let of_a mine (t : authenticated_transform) = { av = (fun () -> t#available_output); o = Obj.repr t; mine; put1 = t#put_char; putb = t#put_byte; putsub = t#put_substring; put = t#put_string; get1 = (fun () -> ignore t#get_char);
  getn = (fun () -> ignore t#get_substring); getall = (fun () -> ignore t#get_string); flush = (fun () -> ()); fin = (fun () -> ignore t#finish_and_get_tag); wipe = (fun () -> t#wipe) }
let of_r mine (r : Random.rng) = { av = (fun () -> 0); o = Obj.repr r; mine; put1 = (fun _ -> ()); putb = (fun _ -> ()); putsub = (fun _ _ _ -> ()); put = (fun s -> ignore (Random.string r (String.length s))); get1 = (fun () -> ignore (Random.string r 1));
  getn = (fun () -> ()); getall = (fun () -> ()); flush = (fun () -> ()); fin = (fun () -> ()); wipe = (fun () -> r#wipe) }
let of_b mine (c : Block.block_cipher) = { av = (fun () -> 0); o = Obj.repr c; mine;
  put1 = (fun _ -> ()); putb = (fun _ -> ()); putsub = (fun _ _ _ -> ()); put = (fun s -> let n = c#blocksize in let b = Bytes.make (String.length s + n) 'p' in Bytes.blit_string s 0 b 0 (String.length s);
         for i = 0 to String.length s / n do c#transform b (min (i * n) (Bytes.length b - n)) b (min (i * n) (Bytes.length b - n)) done);
  get1 = (fun () -> ()); getn = (fun () -> ()); getall = (fun () -> ()); flush = (fun () -> ()); fin = (fun () -> ()); wipe = (fun () -> c#wipe) }
let of_s mine (c : Stream.stream_cipher) = { av = (fun () -> 0); o = Obj.repr c; mine;
  put1 = (fun _ -> ()); putb = (fun _ -> ()); putsub = (fun _ _ _ -> ()); put = (fun s -> let b = Bytes.of_string s in c#transform b 0 b 0 (Bytes.length b));
  get1 = (fun () -> ()); getn = (fun () -> ()); getall = (fun () -> ()); flush = (fun () -> ()); fin = (fun () -> ()); wipe = (fun () -> c#wipe) }

let kv v n = String.init n (fun i -> (pat ("key" ^ v) n).[i])
let iv_made : (string * int, string) Hashtbl.t = Hashtbl.create 16
let iv v n = match Hashtbl.find_opt iv_made (v, n) with
  | Some s -> s
  | None -> let s = pat ("iv" ^ v) n in Hashtbl.replace iv_made (v, n) s; s
let iv_strings v = List.map snd (List.sort compare (Hashtbl.fold (fun (w, n) s l -> if w = v then (n, s) :: l else l) iv_made []))
type kind = { wn : string; mk : string -> w; c : bool (* holds C memory *); z : bool (* zlib *) }
let kd ?(c = false) ?(z = false) wn mk = { wn; mk; c; z }
let cipher_kinds () =
  List.concat_map (fun bk ->
    let n = String.length bk.bkey in
    List.concat_map (fun mode -> List.concat_map (fun pad -> List.map (fun dir ->
      kd (Printf.sprintf "%s/%s/%s/%s" bk.bn (mode_name mode) (pad_name pad) (dirname dir)) (fun v ->
        let k = kv v n in
        of_t [k] (bk.cipher ~mode ?pad:(pad_arg pad) ~iv:(iv v bk.bbs) k dir)))
      [Cipher.Encrypt; Cipher.Decrypt]) [No; Len; P8000]) (if bk.bn = "aes128" || bk.bn = "des" then some_modes bk.bbs else [Cipher.ECB; CBC; CTR; CFB 3; OFB 5])) bks
  @ List.concat_map (fun bk ->
    let n = String.length bk.bkey in
    let b nm f = kd (bk.bn ^ " " ^ nm) (fun v -> let k = kv v n in of_b [k] (f v k)) in
    [ b "block encrypt" (fun v k -> bk.benc k); b "block decrypt" (fun v k -> bk.bdec k);
      b "cbc_encrypt" (fun v k -> new Block.cbc_encrypt ~iv:(iv v bk.bbs) (bk.benc k)); b "cbc_decrypt" (fun v k -> new Block.cbc_decrypt ~iv:(iv v bk.bbs) (bk.bdec k));
      b "cfb_encrypt" (fun v k -> new Block.cfb_encrypt ~iv:(iv v bk.bbs) 3 (bk.benc k)); b "cfb_decrypt" (fun v k -> new Block.cfb_decrypt ~iv:(iv v bk.bbs) 3 (bk.benc k));
      b "ofb" (fun v k -> new Block.ofb ~iv:(iv v bk.bbs) 3 (bk.benc k)); b "ctr" (fun v k -> new Block.ctr ~iv:(iv v bk.bbs) (bk.benc k)); b "ctr 2" (fun v k -> new Block.ctr ~iv:(iv v bk.bbs) ~inc:2 (bk.benc k)) ]) bks
let stream_kinds () =
  [ kd "chacha20/32/8" (fun v -> let k = kv v 32 in of_t [k] (Cipher.chacha20 ~iv:(iv v 8) k Cipher.Encrypt));
    kd "chacha20/16/12" (fun v -> let k = kv v 16 in of_t [k] (Cipher.chacha20 ~iv:(iv v 12) ~ctr:3L k Cipher.Decrypt));
    kd "arcfour" (fun v -> let k = kv v 16 in of_t [k] (Cipher.arcfour k Cipher.Encrypt));
    kd "Stream.chacha20" (fun v -> let k = kv v 32 in of_s [k] (new Stream.chacha20 ~iv:(iv v 8) k));
    kd "Stream.arcfour" (fun v -> let k = kv v 5 in of_s [k] (new Stream.arcfour k)) ]
let codec_kinds () =
  [ kd "b64/compact" (fun _ -> of_t [] (Base64.encode_compact ())); kd "b64/pad" (fun _ -> of_t [] (Base64.encode_compact_pad ()));
    kd "b64/multiline" (fun _ -> of_t [] (Base64.encode_multiline ())); kd "hex/encode" (fun _ -> of_t [] (Hexa.encode ()));
    kd "b64/decode" (fun _ -> let t = Base64.decode () in (let d = (of_t [] t) in let e s = Ref.take (Ref.b64 ~pad:false s) (String.length s) in { d with put = (fun s -> t#put_string (e s)); put1 = (fun c -> t#put_char (e (String.make 1 c)).[0]); putb = (fun b -> t#put_byte (Char.code (e (String.make 1 (Char.chr b))).[0])); putsub = (fun b o n -> t#put_substring (Bytes.of_string (e (Bytes.to_string b))) o n) }));
    kd "hex/decode" (fun _ -> let t = Hexa.decode () in (let d = (of_t [] t) in let e s = Ref.take (Ref.hex s) (String.length s) in { d with put = (fun s -> t#put_string (e s)); put1 = (fun c -> t#put_char (e (String.make 1 c)).[0]); putb = (fun b -> t#put_byte (Char.code (e (String.make 1 (Char.chr b))).[0])); putsub = (fun b o n -> t#put_substring (Bytes.of_string (e (Bytes.to_string b))) o n) }));
    kd "compose(cbc,hex)" (fun v -> let k = kv v 16 in of_t [k] (compose (Cipher.aes ~pad:Padding.length ~iv:(iv v 16) k Cipher.Encrypt) (Hexa.encode ())));
    kd "compose(hex,ctr)" (fun v -> let k = kv v 16 in of_t [k] (compose (Hexa.encode ()) (Cipher.aes ~mode:Cipher.CTR ~iv:(iv v 16) k Cipher.Encrypt))) ]
  @ (if Lazy.force P_mem.has_zlib then
     [ kd ~c:true ~z:true "zlib/compress" (fun _ -> of_t [] (Zlib.compress ~level:0 ()));
       kd ~c:true ~z:true "zlib/compress/9" (fun _ -> of_t [] (Zlib.compress ~level:9 ~write_zlib_header:true ()));
       kd ~c:true ~z:true "zlib/uncompress" (fun _ -> let t = Zlib.uncompress () in { (of_t [] t) with put = (fun s -> t#put_string (transform_string (Zlib.compress ~level:0 ()) s)) }) ] else [])
let hash_kinds () =
  List.map (fun (h : h) -> kd ~c:(List.exists (fun p -> String.length h.hn >= 4 && String.sub h.hn 0 4 = p) ["sha3"; "kecc"; "blak"]) h.hn (fun _ -> of_h [] (h.hmk ()))) (hashes ())
  @ List.concat_map (fun (n, f, id) -> List.map (fun kl -> kd (Printf.sprintf "%s/%d" n kl) (fun v -> let k = kv v kl in of_h [k] (f k))) [1; 20; id.Ref.block; id.Ref.block + 7]) hmacs
  @ List.concat_map (fun (n, f, _, kls) -> List.concat_map (fun kl -> List.map (fun pad ->
      kd (Printf.sprintf "%s/%d/%s" n kl (pad_name pad)) (fun v -> let k = kv v kl in of_h [k] (f ?iv:(Some (iv v (if n = "mac_aes" then 16 else 8))) ?pad:(pad_arg pad) k))) [No; Len; P8000]) kls) cbcmacs
  @ List.concat_map (fun kl -> List.map (fun pad -> kd (Printf.sprintf "des_final/%d/%s" kl (pad_name pad)) (fun v -> let k = kv v kl in of_h [k] (MAC.des_final_triple_des ~iv:(iv v 8) ?pad:(pad_arg pad) k))) [No; P8000]) [16; 24]
  @ List.map (fun kl -> kd (Printf.sprintf "aes_cmac/%d" kl) (fun v -> let k = kv v kl in of_h [k] (MAC.aes_cmac k))) [16; 24; 32]
  @ [ kd "mac blake2b" (fun v -> let k = kv v 33 in of_h [k] (MAC.blake2b512 k)); kd "mac blake2b/200" (fun v -> let k = kv v 64 in of_h [k] (MAC.blake2b 200 k));
      kd "mac blake2s" (fun v -> let k = kv v 32 in of_h [k] (MAC.blake2s256 k)); kd ~c:true "mac blake3" (fun v -> let k = kv v 32 in of_h [k] (MAC.blake3_256 k));
      kd ~c:true "mac blake3/800" (fun v -> let k = kv v 32 in of_h [k] (MAC.blake3 800 k));
      kd "siphash" (fun v -> let k = kv v 16 in of_h [k] (MAC.siphash k)); kd "siphash128" (fun v -> let k = kv v 16 in of_h [k] (MAC.siphash128 k)) ]
let auth_kinds () =
  List.concat_map (fun (n, f, kl, il, _, _) -> List.concat_map (fun dir ->
    List.map (fun hl ->
      kd ~c:true (Printf.sprintf "%s/h%d/%s" n hl (match dir with AEAD.Encrypt -> "enc" | _ -> "dec")) (fun v ->
        let k = kv v kl and header = kv v hl in of_a [k; header] (f ?header:(Some header) ~iv:(iv v il) k dir))) [0; 13; 32]) [AEAD.Encrypt; AEAD.Decrypt]) aead_kinds
  @ [ kd ~c:true "then_hash(cbc,sha3)" (fun v -> let k = kv v 16 in of_a [k] (transform_then_hash (Cipher.aes ~pad:Padding.length ~iv:(iv v 16) k Cipher.Encrypt) (Hash.sha3 256)));
      kd "then_hash(ctr,hmac)" (fun v -> let k = kv v 16 and k2 = kv v 32 in of_a [k; k2] (transform_then_hash (Cipher.aes ~mode:Cipher.CTR ~iv:(iv v 16) k Cipher.Encrypt) (MAC.hmac_sha256 k2)));
      kd "and_hash(chacha,siphash)" (fun v -> let k = kv v 16 and k2 = kv v 32 in of_a [k; k2] (transform_and_hash (Cipher.chacha20 k2 Cipher.Encrypt) (MAC.siphash k)));
      kd "and_hash(cbc pad,mac)" (fun v -> let k = kv v 16 and k2 = kv v 32 in of_a [k; k2] (transform_and_hash (Cipher.aes ~pad:Padding.length ~iv:(iv v 16) k Cipher.Decrypt) (MAC.aes ~iv:(iv v 16) ~pad:Padding._8000 k2))) ]
let rng_kinds () =
  List.concat_map (fun n -> [
    kd (Printf.sprintf "pseudo_rng/%d" n) (fun v -> let k = kv v n in of_r [k] (Random.pseudo_rng k));
    kd (Printf.sprintf "pseudo_rng_aes_ctr/%d" n) (fun v -> let k = kv v n in of_r [k] (Random.pseudo_rng_aes_ctr k)) ]) [16; 17; 32; 40]
let kinds () = cipher_kinds () @ stream_kinds () @ codec_kinds () @ hash_kinds () @ auth_kinds () @ rng_kinds ()

let act_name = function 0 -> "put_string 1, put_char" | 1 -> "put_byte, put_substring 7" | 2 -> "put 16" | 3 -> "put 37" | 4 -> "put 300" | 5 -> "get_char" | 6 -> "get_substring" | 7 -> "get_string" | 8 -> "finish" | 9 -> "flush" | _ -> "put 7300"
let act w v i a =
  let p n = w.put (pat (Printf.sprintf "d%s%d" v i) n) in
  (* what happened, apart from contents: amounts of output are not secrets *)
  let r = try (match a with 0 -> p 1; w.put1 (pat (Printf.sprintf "c%s%d" v i) 1).[0] | 1 -> w.putb (Char.code (pat (Printf.sprintf "b%s%d" v i) 1).[0]); w.putsub (Bytes.of_string (pat (Printf.sprintf "s%s%d" v i) 9)) 1 7 | 2 -> p 16 | 3 -> p 37 | 4 -> p 300 | 5 -> w.get1 () | 6 -> w.getn () | 7 -> w.getall () | 8 -> w.fin () | 9 -> w.flush () | _ -> p 7300); 0
  with Error _ -> 1 | End_of_file -> 2 in
  r + 4 * (try w.av () with _ -> 0)
let hexdiff a b =
  let i = first_diff a b in
  let n = min (String.length a) (String.length b) in
  let lo = max 0 (i - 8) in
  let cut s = Ref.hex (String.sub s lo (min 40 (String.length s - lo))) in
  if i >= n then Printf.sprintf "sizes %d and %d" (String.length a) (String.length b)
  else Printf.sprintf "...%s... against ...%s... (at %d of %d)" (cut a) (cut b) i (String.length a)
(* run one history for one variant: dump after wiping, releases *)
let run_variant k v seq post =
  let mine = ref [] in
  rec_on ();
  let d =
    let w = k.mk v in
    let shape = List.mapi (fun i a -> act w v i a) seq in
    post w;
    (shape, dump w.o (iv_strings v @ w.mine) k.z false) in
  if k.c && not k.z then P_mem.gc_now 1;
  let (n, h) = rec_off () in
  (d, if k.z then 0 else h)
let compare_variants k seq what post =
  trace (); tr (List.length seq + 1);
  let (da, ra) = run_variant k "A" seq post in
  let (db, rb) = run_variant k "B" seq post in
  let hist () = String.concat "; " (List.map act_name seq) in
  (* two executions delivering different amounts (malformed padding) are not comparable *)
  let ((sa, da), (sb, db)) = (da, db) in
  if sa = sb then begin
  if da <> db then fail "%s: after [%s; %s], memory reachable from the object depends on the secrets: %s" k.wn (hist ()) what (hexdiff da db);
  if ra <> rb then fail "%s: after [%s; %s], released C memory depends on the secrets" k.wn (hist ()) what
  end
let () = section "c23_histories" (fun () ->
  List.iter (fun k ->
    let depth = pick (if k.c then 2 else 3) (if k.c then 3 else 4) in
    for a0 = -1 to 10 do
      case (fun () -> Printf.sprintf "%s: wipe after every history of up to %d actions%s" k.wn depth (if a0 < 0 then " (empty)" else " starting with " ^ act_name a0)) (fun () ->
        let check seq = st_s (k.wn, seq); compare_variants k seq "wipe" (fun w -> w.wipe ()) in
        let rec go seq d = check (List.rev seq); if d > 0 then for a = 0 to 9 do go (a :: seq) (d - 1) done in
        if a0 < 0 then begin
          check [];
          (* the comparison is meaningful: without wiping, the states differ *)
          if not k.z then begin
            let live = [[3; 1]; [4]; [0]] in
            if not (List.exists (fun seq -> let (da, _) = run_variant k "A" seq (fun _ -> ()) and (db, _) = run_variant k "B" seq (fun _ -> ()) in snd da <> snd db) live) then
              fail "%s: harness cannot see any secret in the live object" k.wn
          end
        end else go [a0] (depth - 1))
    done) (kinds ()))

(* one-call helpers *)
let later : (unit -> unit) list ref = ref []
let () = section "c23_helpers" (fun () ->
  let lens = pick [0; 1; 16; 32; 100; 300; 7300] (List.init 70 Fun.id @ [255; 256; 257; 300; 1000; 7300; 70000]) in
  List.iter (fun k ->
    case (fun () -> Printf.sprintf "%s: one-call helpers wipe their object" k.wn) (fun () ->
      List.iter (fun n ->
        let data v = pat ("hd" ^ v) n in
        let run v (f : w -> string -> unit) =
          rec_on ();
          let w = k.mk v in
          let failed = (try f w (data v); false with Error _ -> true) in
          let d = if failed then "" else dump w.o w.mine k.z false in
          if k.c && not k.z && not failed then P_mem.gc_now 1;
          let (_, h) = rec_off () in
          List.iter (fun f -> f ()) !later; later := [];
          (failed, d, if k.z || failed then 0 else h) in
        let both name f =
          trace (); tr 2; st_s (k.wn, name, n);
          let (ea, da, ha) = run "A" f and (eb, db, hb) = run "B" f in
          if not ea && not eb then begin
            if da <> db then fail "%s: after %s of %d bytes, the object depends on the secrets: %s" k.wn name n (hexdiff da db);
            if ha <> hb then fail "%s: after %s of %d bytes, released C memory depends on the secrets" k.wn name n
          end in
        let wn = k.wn in
        let inn l = List.exists (fun (k' : kind) -> k'.wn = wn) l in
        if inn (hash_kinds ()) then begin
          both "hash_string" (fun w s -> ignore (hash_string (Obj.obj w.o : hash) s));
          if n < 400 then both "hash_channel" (fun w s ->
            let (r, wr) = Unix.pipe () in ignore (Unix.write_substring wr s 0 n); Unix.close wr;
            let ic = Unix.in_channel_of_descr r in
            later := (fun () -> close_in ic) :: !later; ignore (hash_channel (Obj.obj w.o : hash) ic))
        end else if inn (auth_kinds ()) then begin
          both "auth_transform_string" (fun w s -> ignore (auth_transform_string (Obj.obj w.o) s));
          both "auth_transform_string_detached" (fun w s -> ignore (auth_transform_string_detached (Obj.obj w.o) s));
          both "auth_check_transform_string (wrong tag)" (fun w s -> ignore (auth_check_transform_string (Obj.obj w.o) (s ^ Ref.zeros 32)))
        end else if inn (cipher_kinds ()) && not (String.contains wn ' ') || inn (stream_kinds ()) && wn.[0] <> 'S' || inn (codec_kinds ()) then begin
          both "transform_string" (fun w s -> ignore (transform_string (Obj.obj w.o) s));
          if n < 400 then both "transform_channel" (fun w s ->
            let (r, wr) = Unix.pipe () in ignore (Unix.write_substring wr s 0 n); Unix.close wr;
            let ic = Unix.in_channel_of_descr r and oc = open_out "/dev/null" in
            later := (fun () -> close_in ic; close_out oc) :: !later; transform_channel (Obj.obj w.o) ic oc)
        end) lens)) (kinds ());
  (* the transfer buffers of the channel helpers, as seen by a user-defined object *)
  List.iter (fun n ->
    case (fun () -> Printf.sprintf "transfer buffers of hash_channel and transform_channel, %d bytes" n) (fun () ->
      let data = pat "chan" n in
      let seen = ref [] in
      let keep b = if not (List.memq b !seen) then seen := b :: !seen in
      let h = object
        method hash_size = 1 method add_substring b (_ : int) (_ : int) = keep b
        method add_string (s : string) = () method add_char (c : char) = () method add_byte (i : int) = ()
        method result = "x" method wipe = () end in
      let t = object
        method put_substring b (_ : int) (_ : int) = keep b
        method put_string (s : string) = () method put_char (c : char) = () method put_byte (i : int) = ()
        method get_string = "" method get_substring = (Bytes.empty, 0, 0)
        method get_char : char = raise End_of_file method get_byte : int = raise End_of_file
        method available_output = 0 method finish = () method flush = () method wipe = ()
        method input_block_size = 1 method output_block_size = 1 end in
      let with_pipe f =
        let (r, wr) = Unix.pipe () in ignore (Unix.write_substring wr data 0 n); Unix.close wr;
        let ic = Unix.in_channel_of_descr r in
        (match f ic with () -> () | exception e -> close_in ic; raise e); close_in ic in
      List.iter (fun (name, f) ->
        seen := []; trace (); tr 1; st_s (name, n);
        with_pipe f;
        List.iter (fun b ->
          if n >= 16 then for i = 0 to Bytes.length b - 16 do
            for j = 0 to n - 16 do
              if Bytes.get b i = data.[j] && Bytes.sub_string b i 16 = String.sub data j 16 then
                fail "%s: its transfer buffer still holds the data" name
            done
          done) !seen)
        [ "hash_channel", (fun ic -> ignore (hash_channel (h :> hash) ic)); "hash_channel ~len", (fun ic -> ignore (hash_channel (h :> hash) ~len:n ic));
          "transform_channel", (fun ic -> let oc = open_out "/dev/null" in transform_channel (t :> transform) ic oc; close_out oc);
          "transform_channel ~len", (fun ic -> let oc = open_out "/dev/null" in transform_channel (t :> transform) ~len:n ic oc; close_out oc) ])) [16; 100; 255; 256; 257; 700];
  (* the accepting path of the checks *)
  List.iter (fun (n, f, kl, il, crypt, tag) ->
    case (fun () -> Printf.sprintf "%s: auth_check_transform_string (accepted)" n) (fun () ->
      List.iter (fun len ->
        let go v =
          rec_on ();
          let k = kv v kl in
          let t = f ?header:(Some "h") ~iv:(iv v il) k AEAD.Decrypt in
          let c = crypt k (iv v il) (pat v len) in
          (match auth_check_transform_string t (c ^ tag k (iv v il) "h" c) with Some _ -> () | None -> fail "refused");
          let d = dump (Obj.repr t) [k] false false in
          P_mem.gc_now 1;
          (d, rec_off ()) in
        trace (); tr 1; st_s (n, len);
        let (da, ra) = go "A" in let (db, rb) = go "B" in
        if da <> db then fail "%s: after an accepted check, the object depends on the secrets: %s" n (hexdiff da db);
        if ra <> rb then fail "%s: after an accepted check, released C memory depends on the secrets" n) lens)) aead_kinds)

(* nothing in the library's global state depends on the secrets either *)
let () = section "c23_globals" (fun () ->
  let root = module_root () in
  if Obj.is_block root then
    List.iter (fun k ->
      case (fun () -> Printf.sprintf "%s: global state after wiping" k.wn) (fun () ->
        List.iter (fun seq ->
          let go v =
            rec_on ();
            let w = k.mk v in
            List.iteri (fun i a -> ignore (act w v i a)) seq;
            w.wipe ();
            let d = dump root w.mine true true in
            ignore (rec_off ()); d in
          trace (); tr 1; st_s (k.wn, seq);
          ignore (go "A");
          let a = go "A" in let b = go "B" in
          if a <> b then fail "%s: a global variable of the library depends on the secrets: %s" k.wn (hexdiff a b)) [[3]; [3; 8]; [4; 5; 8; 7]])) (kinds ()))

(* nor in the static memory of the program: tables and buffers of the C code *)
external static_begin : unit -> unit = "vw_static_begin"
external static_take : int -> unit = "vw_static_take"
external static_diff : unit -> int = "vw_static_diff"
external static_size : unit -> int = "vw_static_size"
let () = section "c23_static" (fun () ->
  List.iter (fun k ->
    case (fun () -> Printf.sprintf "%s: static memory after wiping" k.wn) (fun () ->
      List.iter (fun seq ->
        let va = k.mk "A" and vb = k.mk "B" in
        ignore va; ignore vb;
        let go v =
          let w = k.mk v in
          List.iteri (fun i a -> ignore (act w v i a)) seq;
          w.wipe () in
        trace (); tr 1; st_s (k.wn, seq);
        go "A"; go "B";
        (* an aperiodic schedule, so that neither counters nor alternations look like secrets *)
        let look sched =
          static_begin ();
          List.iter (fun a -> go (if a = 0 then "A" else "B"); static_take a) sched;
          static_diff () in
        (* a counter of the runtime may follow the schedule by chance: a much longer one must show the same *)
        let d = look [0; 0; 1; 1; 0; 1; 1; 0; 1; 0; 0; 1] in
        let d = if d < 0 then d else begin
          beat ();
          look (List.init 80 (fun i -> Char.code (pat "schedule" 80).[i] lsr 3 land 1))
        end in
        if d >= 0 then fail "%s: byte %d of the program's static memory depends on the secrets after [%s; wipe]" k.wn d (String.concat "; " (List.map act_name seq))) [[4]; [3; 8]; [10]])) (List.filter (fun k -> not k.z) (kinds ())))

let () = section "c23_strings" (fun () ->
  for n = 0 to pick 200 600 do
    case (fun () -> Printf.sprintf "wipe_bytes and wipe_string of %d bytes" n) (fun () ->
      List.iter (fun fill ->
        trace (); tr 2; st2 n (Char.code fill);
        let s = String.init n (fun i -> Char.chr ((Char.code fill + 7 * i) land 255)) in
        let b = Bytes.of_string s in
        wipe_bytes b;
        eq "wipe_bytes" (Ref.zeros n) (Bytes.to_string b);
        let s2 = Bytes.unsafe_to_string (Bytes.of_string s) in
        wipe_string s2;
        eq "wipe_string" (Ref.zeros n) s2) ['\000'; '\255'; 'a'])
  done;
  for k = 16 to pick 90 300 do
    case (fun () -> Printf.sprintf "wipe_key, %d bits" (2 * k)) (fun () ->
      let zero nm f s = if s <> Ref.zeros (String.length s) then fail "%s: component %s not erased" nm f in
      let (p, _) = RSA.new_key ~rng:(P_pk.scripted (string_of_int k)) (2 * k) in
      trace (); tr 2; st2 k 9;
      RSA.wipe_key p;
      List.iter (fun (f, s) -> zero "RSA" f s) ["n", p.n; "d", p.d; "p", p.p; "q", p.q; "dp", p.dp; "dq", p.dq; "qinv", p.qinv];
      let (p, _) = Paillier.new_key ~rng:(P_pk.scripted (string_of_int k)) (2 * k) in
      let o = Obj.repr p in
      Paillier.wipe_key p;
      for i = 0 to Obj.size o - 1 do
        let f = Obj.field o i in
        if Obj.is_block f && Obj.tag f = Obj.string_tag then zero "Paillier" (Printf.sprintf "#%d" i) (Obj.obj f)
      done)
  done)

(* big numbers *)
module B = CryptokitBignum
external young_clear : unit -> unit = "vw_young_clear"
external young_find : string -> int = "vw_young_find"
external custom_data : Obj.t -> string = "vw_custom_data"
let le_limbs (be : string) = (* the words of a number, as they lie in memory *)
  let z = Z.to_bits (Z.of_bits (String.init (String.length be) (fun i -> be.[String.length be - 1 - i]))) in z
let () = section "c23_bignums" (fun () ->
  let all_zero what s = if s <> Ref.zeros (String.length s) then fail "%s: not erased" what in
  for n = 1 to pick 80 400 do
    case (fun () -> Printf.sprintf "Bignum.wipe of numbers of %d bytes" n) (fun () ->
      List.iter (fun (lab, s) ->
        List.iter (fun neg ->
          trace (); tr 1; st_s (n, lab, neg);
          let mk l = let z = B.of_bytes (pat l n) in z in
          let before = mk "before" in
          let z = B.of_bytes s in
          let z = if neg then B.sub B.zero z else z in
          let after = mk "after" in
          let keep = B.to_bytes before, B.to_bytes after in
          B.wipe z;
          all_zero (Printf.sprintf "a number of %d bytes" n) (custom_data (Obj.repr z));
          if keep <> (B.to_bytes before, B.to_bytes after) then fail "wiping a number of %d bytes changed another one" n) [false; true])
        ["p", pat "bn" n; "ff", String.make n '\255'; "1", "\001" ^ Ref.zeros (n - 1)])
  done;
  (* the private secret of a Diffie-Hellman exchange is erased once used *)
  List.iter (fun privlen ->
    case (fun () -> Printf.sprintf "DH: private secret of %d bits erased by shared_secret" privlen) (fun () ->
      let dh = { DH.p = P_pk.be 100 (Z.nextprime (Z.shift_left Z.one 790)); g = "\007"; privlen } in
      let s l = DH.private_secret ~rng:(P_pk.scripted ~label:l "") dh in
      let a = s "a" and b = s "b" in
      trace (); tr 3; st2 privlen 77;
      let mb = DH.message dh b in
      ignore (DH.shared_secret dh a mb);
      all_zero "private secret" (custom_data (Obj.repr a)))) (List.init (pick 120 250) (fun i -> 64 + 3 * i));
  (* no operation leaves behind a big number, or a conversion buffer, holding a private key or a message *)
  let gc0 = Gc.get () in
  let with_young what (secrets : (string * string) list) (f : unit -> 'a) =
    let pats = List.filter_map (fun (n, be) ->
      let l = le_limbs be in if String.length l < 16 then None else Some (n, l)) secrets in
    let expected = List.map (fun _ -> 0) pats in
    Gc.set { gc0 with Gc.minor_heap_size = 1 lsl 22 };
    trace (); tr 1; st_s (what, 5);
    let found =
      Fun.protect ~finally:(fun () -> Gc.set gc0) (fun () ->
        young_clear ();
        let c0 = (Gc.quick_stat ()).Gc.minor_collections in
        let r = f () in
        let l = List.map (fun (_, l) -> young_find l) pats in
        if (Gc.quick_stat ()).Gc.minor_collections <> c0 then (if Sys.getenv_opt "VW_DBG" <> None then prerr_endline ("collected: " ^ what); expected) else (ignore (Sys.opaque_identity r); l)) in
    List.iter2 (fun (n, _) k -> if k > 0 then fail "%s: %d copies of %s left in memory" what k n) pats found in
  List.iter (fun bits ->
    List.iter (fun v ->
      case (fun () -> Printf.sprintf "RSA-%d, key %d: operations erase their big numbers" bits v) (fun () ->
        let (priv, pub) = RSA.new_key ~rng:(P_pk.scripted ~label:(Printf.sprintf "rsaw%d" v) "") ~e:65537 bits in
        let m = "\000" ^ pat (Printf.sprintf "m%d" v) (bits / 8 - 1) in
        (* the secret components made by new_key are known from the same key made before *)
        with_young "RSA.new_key" ["p", priv.p; "q", priv.q; "d", priv.d; "dp", priv.dp; "dq", priv.dq; "qinv", priv.qinv]
          (fun () -> Obj.magic (RSA.new_key ~rng:(P_pk.scripted ~label:(Printf.sprintf "rsaw%d" v) "") ~e:65537 bits) : unit -> string);
        let c = RSA.encrypt pub m in
        with_young "RSA.encrypt" ["the message", m] (fun () -> RSA.encrypt pub m);
        with_young "RSA.decrypt" ["the message", m; "d", priv.d] (fun () -> RSA.decrypt priv c);
        with_young "RSA.sign" ["the message", m; "d", priv.d] (fun () -> RSA.sign priv m);
        with_young "RSA.decrypt_CRT" ["the message", m; "p", priv.p; "q", priv.q; "dp", priv.dp; "dq", priv.dq; "qinv", priv.qinv] (fun () -> RSA.decrypt_CRT priv c);
        with_young "RSA.sign_CRT" ["the message", m; "p", priv.p; "q", priv.q; "dp", priv.dp; "dq", priv.dq; "qinv", priv.qinv] (fun () -> RSA.sign_CRT priv m))) (List.init (pick 3 10) Fun.id)) (pick [256; 512] [256; 320; 384; 512; 768; 1024]);
  List.iter (fun v ->
    case (fun () -> Printf.sprintf "Paillier, key %d: operations erase their big numbers" v) (fun () ->
      let (priv, pub) = Paillier.new_key ~rng:(P_pk.scripted ~label:(Printf.sprintf "paiw%d" v) "") 512 in
      let m = pat (Printf.sprintf "pm%d" v) 60 in
      let c = Paillier.encrypt ~rng:(P_pk.scripted ~label:"r" "") pub m in
      let o = Obj.repr priv in
      let fld i = (Obj.obj (Obj.field o i) : string) in
      let pred x = let b = Bytes.of_string x in let l = Bytes.length b - 1 in Bytes.set b l (Char.chr (Char.code (Bytes.get b l) - 1)); Bytes.to_string b in
      with_young "Paillier.new_key" ["p", fld 3; "q", fld 4; "p - 1", pred (fld 3); "q - 1", pred (fld 4); "lambda", fld 5; "mu", fld 6]
        (fun () -> Obj.magic (Paillier.new_key ~rng:(P_pk.scripted ~label:(Printf.sprintf "paiw%d" v) "") 512) : unit -> string);
      with_young "Paillier.decrypt" ["the message", m; "lambda", fld 5; "mu", fld 6] (fun () -> Paillier.decrypt priv c))) (List.init (pick 3 10) Fun.id);
  (* DH.derive_key: no copy of a block of the derived key besides the result *)
  for n = 1 to pick 100 300 do
    case (fun () -> Printf.sprintf "DH.derive_key of %d bytes erases its intermediate hashes" n) (fun () ->
      trace (); tr 1; st2 n 78;
      let sec = pat "shared" 40 in
      let found = Fun.protect ~finally:(fun () -> Gc.set gc0) (fun () ->
        Gc.set { gc0 with Gc.minor_heap_size = 1 lsl 18 };
        let blocks = List.init ((n + 31) / 32) (fun k ->
          (k, Ref.hash Ref.sha256 (sec ^ string_of_int (k + 1)))) in
        young_clear ();
        let c0 = (Gc.quick_stat ()).Gc.minor_collections in
        let r = DH.derive_key sec n in
        let l = List.map (fun (k, b) -> (k, young_find b)) blocks in
        let same = (Gc.quick_stat ()).Gc.minor_collections = c0 in
        ignore (Sys.opaque_identity r);
        if same then l else []) in
      List.iter (fun (k, c) ->
        if c > (if 32 * (k + 1) <= n then 1 else 0) then fail "DH.derive_key of %d bytes: %d copies of block %d of the key left in memory" n c k) found)
  done)
