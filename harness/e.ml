(* Exploration engine.

   A *section* is a deterministic enumeration of *cases*.  A case executes one
   or more histories on the real library and compares every observation with
   a model.  Cases are numbered in enumeration order; with N workers, case i is
   executed by worker (i mod N), so the union of the workers covers the whole
   enumeration.  In replay mode only the case with the given key is executed.

   Bookkeeping:
   - states: distinct abstract states reached, recorded by the explorers with
     [st]; counted in a bit-state table (hash collisions can only lower it);
   - transitions: operations executed on the implementation ([tr]);
   - traces: complete histories executed on the implementation and compared
     with the model ([trace]). *)

exception Fail of string
let fail fmt = Printf.ksprintf (fun s -> raise (Fail s)) fmt

type tier = Quick | Thorough
let tier = ref Quick
(* sections cheap enough for the bounds of the thorough tier in every run
   (in the plain configurations: VW_DEEP is set by bin/check) *)
let deep = match Sys.getenv_opt "VW_DEEP" with None -> [] | Some s -> String.split_on_char ',' s
let sec_name = ref ""
let quick () = !tier = Quick && not (List.mem !sec_name deep)
let pick q t = if quick () then q else t

(* ---- counters ---- *)
let transitions = ref 0
let traces = ref 0
let tr n = transitions := !transitions + n
external scribble : unit -> unit = "vw_scribble" [@@noalloc]
let trace () = incr traces; scribble ()
let bits_log = 27
let bits = lazy (let b = Bigarray.(Array1.create int8_unsigned c_layout (1 lsl (bits_log - 3))) in Bigarray.Array1.fill b 0; b)
let mix h x =
  let h = (h lxor x) * 0x2545F4914F6CDD1D in
  let h = h lxor (h lsr 29) in
  let h = h * 0x1B03738712FAD5C9 in
  h lxor (h lsr 32)
let section_salt = ref 0
let st k =
  let h = (mix !section_salt k) land ((1 lsl bits_log) - 1) in
  let b = Lazy.force bits in
  let i = h lsr 3 in
  Bigarray.Array1.unsafe_set b i (Bigarray.Array1.unsafe_get b i lor (1 lsl (h land 7)))
let st_s s = st (mix (Hashtbl.hash s) (Hashtbl.seeded_hash 7 s))
let st2 a b = st (mix (mix 1 a) b)
let st3 a b c = st (mix (mix (mix 2 a) b) c)

(* ---- worker context ---- *)
let nworkers = ref 1
let me = ref 0
let replay_key : string option ref = ref None
let progress : (int, Bigarray.int_elt, Bigarray.c_layout) Bigarray.Array1.t option ref = ref None
let sec_id = ref 0
let idx = ref 0
let executed = ref 0
let replay_idx = ref (-1)
type viol = { v_section : string; v_idx : int; v_key : string; v_msg : string }
let viols : viol list ref = ref []
let on_viol : (viol -> unit) ref = ref (fun _ -> ())
let samples : (string * string) list ref = ref []
let known : (string -> string -> bool) ref = ref (fun _ _ -> false)
exception Enough

let max_viols = 6
let key_probe : (string -> unit) option ref = ref None
let current_key = ref (fun () -> "")
let sample s = if List.length !samples < 4 then samples := (!sec_name, s) :: !samples

let exn_string = function
  | Fail s -> s
  | Cryptokit.Error e ->
      "unexpected Cryptokit.Error " ^ (match e with
        | Cryptokit.Wrong_key_size -> "Wrong_key_size" | Wrong_IV_size -> "Wrong_IV_size"
        | Wrong_data_length -> "Wrong_data_length" | Bad_padding -> "Bad_padding"
        | Output_buffer_overflow -> "Output_buffer_overflow"
        | Incompatible_block_size -> "Incompatible_block_size"
        | Number_too_long -> "Number_too_long" | Seed_too_short -> "Seed_too_short"
        | Message_too_long -> "Message_too_long" | Bad_encoding -> "Bad_encoding"
        | Compression_error (a, b) -> Printf.sprintf "Compression_error(%s,%s)" a b
        | No_entropy_source -> "No_entropy_source" | Entropy_source_closed -> "Entropy_source_closed"
        | Compression_not_supported -> "Compression_not_supported")
  | e -> "unexpected exception " ^ Printexc.to_string e

let case (key : unit -> string) (f : unit -> unit) =
  let i = !idx in
  incr idx;
  let run =
    match !replay_key with
    | Some k -> if !replay_idx >= 0 then i = !replay_idx else key () = k
    | None -> i mod !nworkers = !me in
  if run then begin
    (match !key_probe with Some p -> p (key ()) | None -> ());
    (match !progress with
     | Some p -> p.{4 * !me} <- !sec_id; p.{4 * !me + 1} <- i; p.{4 * !me + 3} <- 0; p.{4 * !me + 2} <- p.{4 * !me + 2} + 1
     | None -> ());
    incr executed;
    current_key := key;
    if !samples = [] || (List.length !samples < 3 && i land 1023 = 1) then sample (key ());
    match f () with
    | () -> ()
    | exception Enough -> raise Enough
    | exception e ->
        let v = { v_section = !sec_name; v_idx = i; v_key = key (); v_msg = exn_string e } in
        !on_viol v;
        viols := v :: !viols;
        if List.length !viols >= max_viols && !replay_key = None then raise Enough
  end

(* Called inside long cases so that the watchdog sees progress *)
let beat () = match !progress with
  | Some p -> p.{4 * !me + 2} <- p.{4 * !me + 2} + 1
  | None -> ()

(* Called before one very long operation: the watchdog allows it [s] seconds *)
let patience s = match !progress with
  | Some p -> p.{4 * !me + 3} <- s; p.{4 * !me + 2} <- p.{4 * !me + 2} + 1
  | None -> ()

(* ---- section registry ---- *)
let registry : (string, unit -> unit) Hashtbl.t = Hashtbl.create 64
let section name f =
  if Hashtbl.mem registry name then failwith ("duplicate section " ^ name);
  Hashtbl.replace registry name f
let run_section id name =
  sec_id := id; sec_name := name; idx := 0; section_salt := Hashtbl.hash name;
  match Hashtbl.find_opt registry name with
  | None -> failwith ("unknown section " ^ name)
  | Some f -> f ()

(* ---- comparison helpers ---- *)
let show s =
  let n = String.length s in
  if n <= 48 then Printf.sprintf "%d:%s" n (Ref.hex s)
  else Printf.sprintf "%d:%s..%s" n (Ref.hex (String.sub s 0 24)) (Ref.hex (String.sub s (n - 8) 8))
let first_diff a b =
  let n = min (String.length a) (String.length b) in
  let rec go i = if i < n && a.[i] = b.[i] then go (i + 1) else i in go 0
let eq what want got =
  if not (String.equal want got) then
    fail "%s: expected %s, got %s (first difference at byte %d)" what (show want) (show got) (first_diff want got)
let eqf what want got =
  if not (String.equal want got) then
    fail "%s: expected %s, got %s (first difference at byte %d)" (what ()) (show want) (show got) (first_diff want got)
let eqi what want got = if want <> got then fail "%s: expected %d, got %d" what want got

(* deterministic data; the strings made while [tracking] are remembered with a copy *)
let tracking = ref false
let tracked : (string * string) list ref = ref []
let track_arg s = tracked := (s, Bytes.to_string (Bytes.of_string s)) :: !tracked
let pat label n =
  let b = Buffer.create (n + 16) in
  let i = ref 0 in
  while Buffer.length b < n do
    Buffer.add_string b (Digest.string (Printf.sprintf "%s/%d" label !i)); incr i
  done;
  let s = Buffer.sub b 0 n in
  if !tracking then track_arg s;
  s

(* outcome of a computation, for comparing behaviours including errors *)
let outcome f = match f () with
  | s -> "ok:" ^ s
  | exception (Fail _ as e) -> raise e
  | exception e -> "exn:" ^ exn_string e
