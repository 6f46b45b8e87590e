(* main.exe run --sections a,b,c --tier quick --jobs 8 --dir DIR
   main.exe replay --section S --key K [--idx I] --tier T
   Results are written as JSON to DIR/result.json. *)
open E
module M1 = P_cipher
let () = ignore P_cipher.both; ignore P_hash.uniq; ignore P_stream.uniq; ignore P_aead.uniq; ignore P_codec.uniq; ignore P_rng.uniq; ignore P_pk.uniq; ignore P_mem.uniq; ignore P_wipe.uniq; ignore P_inter.uniq; ignore P_far.uniq; ignore P_struct.uniq; ignore P_own.uniq; ignore P_size.uniq; ignore P_opt.uniq

let json_str s =
  let b = Buffer.create (String.length s + 2) in
  Buffer.add_char b '"';
  String.iter (fun c -> match c with
    | '"' -> Buffer.add_string b "\\\"" | '\\' -> Buffer.add_string b "\\\\"
    | c when Char.code c < 32 || Char.code c > 126 -> Buffer.add_string b (Printf.sprintf "\\u%04x" (Char.code c))
    | c -> Buffer.add_char b c) s;
  Buffer.add_char b '"'; Buffer.contents b

type wres = { tr : int; tc : int; ex : int; smp : (string * string) list; cases : (string * int) list;
              secs : (string * float) list; done_ : bool }

let sections = ref [] and jobs = ref 8 and dir = ref "." and limit = ref 100.
let mode = ref "" and one_section = ref ""
let known_keys : (string * string) list ref = ref []

let with_files me = (Filename.concat !dir (Printf.sprintf "res.%d" me),
                     Filename.concat !dir (Printf.sprintf "viol.%d" me),
                     Filename.concat !dir (Printf.sprintf "bits.%d" me))

let append_viol file v =
  let oc = open_out_gen [Open_append; Open_creat; Open_binary] 0o644 file in
  Marshal.to_channel oc v []; close_out oc
let read_viols file =
  match open_in_bin file with
  | exception Sys_error _ -> []
  | ic ->
    let rec go acc = match (Marshal.from_channel ic : viol) with
      | v -> go (v :: acc) | exception _ -> close_in ic; List.rev acc in
    go []

external mem_limit : int -> unit = "vw_mem_limit"
let worker me =
  mem_limit 3500;
  let (fres, fviol, fbits) = with_files me in
  E.me := me;
  E.on_viol := append_viol fviol;
  let secs = ref [] and cases = ref [] in
  let t0 = ref (Unix.gettimeofday ()) in
  (try
    List.iteri (fun i s ->
      (try run_section i s with Enough -> raise Enough);
      let t = Unix.gettimeofday () in
      secs := (s, t -. !t0) :: !secs; t0 := t;
      cases := (s, !E.idx) :: !cases) !sections
  with Enough -> ());
  let oc = open_out_bin fres in
  Marshal.to_channel oc { tr = !transitions; tc = !traces; ex = !executed; smp = !samples; cases = !cases; secs = !secs; done_ = true } [];
  close_out oc;
  let oc = open_out_bin fbits in
  if Lazy.is_val bits then begin let b = Lazy.force bits in output_string oc (String.init (Bigarray.Array1.dim b) (fun i -> Char.unsafe_chr b.{i})) end;
  close_out oc

(* processor time used by a process, in seconds: hangs are told by it, so that a loaded machine raises no alarm *)
let cpu_time pid =
  try
    let ic = open_in (Printf.sprintf "/proc/%d/stat" pid) in
    let s = try input_line ic with e -> close_in ic; raise e in
    close_in ic;
    let s = String.sub s (String.rindex s ')' + 2) (String.length s - String.rindex s ')' - 2) in
    match String.split_on_char ' ' s with
    | l -> float (int_of_string (List.nth l 11) + int_of_string (List.nth l 12)) /. 100.
  with _ -> -1.
(* no progress since (t, c) although [limit] seconds of processor time were used (or nothing happens at all) *)
let hung pid (t, c) limit =
  let now = Unix.gettimeofday () in
  now -. t > limit &&
    (let c' = cpu_time pid in c < 0. || c' < 0. || c' -. c > limit || c' -. c < 0.02 *. limit || now -. t > 6. *. limit)

(* child process running f; returns `Ok | `Exit n | `Signal n | `Timeout *)
let in_child ?(timeout = 0.) f =
  flush_all ();
  match Unix.fork () with
  | 0 -> (match f () with () -> Unix._exit 0 | exception e -> prerr_endline (Printexc.to_string e); Unix._exit 3)
  | pid ->
    let t0 = Unix.gettimeofday () in
    let rec wait () =
      match Unix.waitpid [Unix.WNOHANG] pid with
      | 0, _ ->
        if timeout > 0. && hung pid (t0, 0.) timeout then begin
          Unix.kill pid Sys.sigkill; ignore (Unix.waitpid [] pid); `Timeout
        end else (Unix.sleepf 0.01; wait ())
      | _, Unix.WEXITED 0 -> `Ok
      | _, Unix.WEXITED n -> `Exit n
      | _, (Unix.WSIGNALED n | Unix.WSTOPPED n) -> `Signal n in
    wait ()

let run_case_alone section ~idx ~key =
  let f = Filename.concat !dir "replay.viol" in
  (try Sys.remove f with _ -> ());
  let ends x = let n = String.length section and m = String.length x in n >= m && String.sub section (n - m) m = x in
  let r = in_child ~timeout:(if ends "_huge" || ends "_long" then max !limit 400. else !limit) (fun () ->
    mem_limit 3500;
    E.progress := None; E.replay_key := Some key; E.replay_idx := idx;
    E.on_viol := append_viol f;
    (try run_section 0 section with Enough -> ());
    if !executed = 0 then begin
      (* the enumeration changed: fall back on the key *)
      E.replay_idx := -1; (try run_section 0 section with Enough -> ())
    end;
    if !executed = 0 then Unix._exit 4) in
  match read_viols f, r with
  | v :: _, _ -> Some v.v_msg
  | [], `Ok -> None
  | [], `Signal n -> Some (Printf.sprintf "the process was killed by signal %d (crash)" n)
  | [], `Timeout -> Some (Printf.sprintf "no termination within %.0f s" !limit)
  | [], `Exit 4 -> None
  | [], `Exit n -> Some (Printf.sprintf "the process exited with code %d" n)

(* key of case number idx of a section *)
let key_of section idx =
  let found = ref "?" in
  let f = Filename.concat !dir "key" in
  (match in_child ~timeout:60. (fun () ->
     E.progress := None; E.replay_key := Some ""; E.replay_idx := idx;
     let oc = open_out_bin f in
     E.key_probe := Some (fun k -> output_string oc k; close_out oc; Unix._exit 0);
     (try run_section 0 section with _ -> ())) with
   | `Ok -> (try let ic = open_in_bin f in found := really_input_string ic (in_channel_length ic); close_in ic with _ -> ())
   | _ -> ());
  !found

let () =
  let rec parse = function
    | "--sections" :: s :: r -> sections := List.filter (fun x -> x <> "") (String.split_on_char ',' s); parse r
    | "--tier" :: t :: r -> tier := (if t = "thorough" then Thorough else Quick); parse r
    | "--jobs" :: n :: r -> jobs := int_of_string n; parse r
    | "--dir" :: d :: r -> dir := d; parse r
    | "--limit" :: d :: r -> limit := float_of_string d; parse r
    | "--section" :: d :: r -> one_section := d; parse r
    | "--key" :: d :: r -> replay_key := Some d; parse r
    | "--idx" :: d :: r -> replay_idx := int_of_string d; parse r
    | m :: r -> mode := m; parse r
    | [] -> () in
  parse (List.tl (Array.to_list Sys.argv));
  (match Selftest.run () with
   | [] -> () | l -> List.iter prerr_endline l; prerr_endline "reference self-test failed"; exit 2);
  match !mode with
  | "table" -> P_hash.print_table ()
  | "list" -> Hashtbl.iter (fun k _ -> print_endline k) registry
  | "replay" ->
    let key = Option.get !replay_key and idx = !replay_idx in
    (match run_case_alone !one_section ~idx ~key with
     | None -> print_endline "not reproduced"; exit 0
     | Some m -> Printf.printf "reproduced: %s | %s\n" key m; exit 1)
  | "run" ->
    let t0 = Unix.gettimeofday () in
    let pf = Filename.concat !dir "progress" in
    let fd = Unix.openfile pf [O_RDWR; O_CREAT; O_TRUNC] 0o644 in
    let p = Bigarray.array1_of_genarray
        (Unix.map_file fd Bigarray.int Bigarray.c_layout true [| 4 * !jobs |]) in
    Unix.close fd;
    E.progress := Some p;
    E.nworkers := !jobs;
    let extra : (string * int * string) list ref = ref [] in  (* crashes and hangs: section, idx, what *)
    let start me = flush_all (); match Unix.fork () with
      | 0 -> (match worker me with () -> Unix._exit 0
              | exception e -> prerr_endline ("worker: " ^ Printexc.to_string e); Unix._exit 3)
      | pid -> pid in
    let live = Hashtbl.create 8 in
    for i = 0 to !jobs - 1 do Hashtbl.replace live (start i) (i, ref (-1), ref (Unix.gettimeofday (), 0.)) done;
    let infra = ref None in
    (* once something was found the other workers get a short while to find more *)
    let found_at = ref infinity and checked = ref t0 in
    let found () = !extra <> [] || List.exists (fun i -> let (_, f, _) = with_files i in Sys.file_exists f) (List.init !jobs Fun.id) in
    let stopped = ref false in
    while Hashtbl.length live > 0 do
      (match Unix.waitpid [Unix.WNOHANG] (-1) with
       | 0, _ ->
         Unix.sleepf 0.02;
         let now = Unix.gettimeofday () in
         if now -. !checked > 0.5 then begin
           checked := now;
           if !found_at = infinity && found () then found_at := now;
           if now -. !found_at > 20. && not !stopped then begin
             stopped := true;
             Hashtbl.iter (fun pid _ -> Unix.kill pid Sys.sigkill) live
           end
         end;
         if not !stopped then Hashtbl.iter (fun pid (i, last, t) ->
           let c = p.{4 * i + 2} in
           if c <> !last then (if now -. fst !t > 1. || !last < 0 then t := (now, cpu_time pid); last := c)
           else if hung pid !t (max !limit (float p.{4 * i + 3})) then begin
             Unix.kill pid Sys.sigkill;
             t := (now +. 1e9, 0.);
             extra := (List.nth !sections p.{4 * i}, p.{4 * i + 1}, Printf.sprintf "no progress for %.0f s" !limit) :: !extra
           end) live
       | pid, stt ->
         (match Hashtbl.find_opt live pid with
          | None -> ()
          | Some (i, _, _) ->
            Hashtbl.remove live pid;
            (match stt with
             | Unix.WEXITED 0 -> ()
             | Unix.WSIGNALED n when n = Sys.sigkill ->
               if not !stopped && not (List.exists (fun (s, k, _) -> s = List.nth !sections p.{4*i} && k = p.{4*i+1}) !extra)
               then infra := Some "a worker was killed (out of memory?)"
             | Unix.WSIGNALED n | Unix.WSTOPPED n ->
               extra := (List.nth !sections p.{4 * i}, p.{4 * i + 1}, Printf.sprintf "crash, signal %d" n) :: !extra
             | Unix.WEXITED n ->
               extra := (List.nth !sections p.{4 * i}, p.{4 * i + 1}, Printf.sprintf "worker exit code %d" n) :: !extra))
       | exception Unix.Unix_error (Unix.ECHILD, _, _) -> Hashtbl.reset live)
    done;
    (* merge *)
    let rs = List.filter_map (fun i ->
      let (f, _, _) = with_files i in
      match open_in_bin f with
      | exception _ -> None
      | ic ->   (* a worker stopped half-way leaves a truncated file *)
        let r = try Some (Marshal.from_channel ic : wres) with End_of_file | Failure _ -> None in
        close_in ic; r) (List.init !jobs Fun.id) in
    let sum f = List.fold_left (fun a r -> a + f r) 0 rs in
    let acc = Bytes.make (1 lsl (bits_log - 3)) '\000' in
    for i = 0 to !jobs - 1 do
      let (_, _, fb) = with_files i in
      match open_in_bin fb with
      | exception _ -> ()
      | ic ->
        let n = in_channel_length ic in
        if n = Bytes.length acc then begin
          let s = really_input_string ic n in
          for j = 0 to n / 8 - 1 do
            Bytes.set_int64_ne acc (8*j) (Int64.logor (Bytes.get_int64_ne acc (8*j)) (String.get_int64_ne s (8*j)))
          done
        end;
        close_in ic
    done;
    let pop = Array.init 256 (fun b -> let rec c b = if b = 0 then 0 else (b land 1) + c (b lsr 1) in c b) in
    let states = ref 0 in
    Bytes.iter (fun c -> states := !states + pop.(Char.code c)) acc;
    let vs = List.concat_map (fun i -> let (_, f, _) = with_files i in read_viols f) (List.init !jobs Fun.id) in
    let vs = vs @ List.map (fun (s, i, w) -> { v_section = s; v_idx = i; v_key = key_of s i; v_msg = w }) !extra in
    (* confirm by replay in isolation *)
    let vs = List.filteri (fun i _ -> i < 12) vs in
    let tc = Unix.gettimeofday () and conf = ref 0 in
    let vs = List.filter_map (fun v ->
      if !conf > 0 && Unix.gettimeofday () -. tc > 30. || Unix.gettimeofday () -. tc > 250. then None else
      match run_case_alone v.v_section ~idx:v.v_idx ~key:v.v_key with
      | Some m -> incr conf; Some (v, true, m)
      | None -> Some (v, false, v.v_msg)) vs in
    let oc = open_out_bin (Filename.concat !dir "result.json") in
    let pr fmt = Printf.fprintf oc fmt in
    pr "{\"states\":%d,\"transitions\":%d,\"traces\":%d,\"cases\":%d,\n" !states (sum (fun r -> r.tr)) (sum (fun r -> r.tc)) (sum (fun r -> r.ex));
    pr "\"workers_done\":%d,\"jobs\":%d,\"wall\":%.2f,\n" (List.length rs) !jobs (Unix.gettimeofday () -. t0);
    (match !infra with Some s -> pr "\"infra\":%s,\n" (json_str s) | None -> ());
    let cases = match List.filter (fun r -> List.length r.cases = List.length !sections) rs with r :: _ -> r.cases | [] -> [] in
    pr "\"sections\":{%s},\n" (String.concat "," (List.rev_map (fun (s, n) -> Printf.sprintf "%s:%d" (json_str s) n) cases));
    let tmax = Hashtbl.create 8 in
    List.iter (fun r -> List.iter (fun (s, t) ->
      Hashtbl.replace tmax s (max t (Option.value ~default:0. (Hashtbl.find_opt tmax s)))) r.secs) rs;
    pr "\"times\":{%s},\n" (String.concat "," (Hashtbl.fold (fun s t l -> Printf.sprintf "%s:%.2f" (json_str s) t :: l) tmax []));
    let smp = List.concat_map (fun r -> r.smp) rs in
    pr "\"samples\":[%s],\n" (String.concat "," (List.filteri (fun i _ -> i < 8) (List.map (fun (s, k) -> json_str (s ^ ": " ^ k)) smp)));
    pr "\"violations\":[%s]}\n" (String.concat ",\n" (List.map (fun (v, conf, m) ->
      Printf.sprintf "{\"section\":%s,\"idx\":%d,\"key\":%s,\"confirmed\":%b,\"msg\":%s}"
        (json_str v.v_section) v.v_idx (json_str v.v_key) conf (json_str m)) vs));
    close_out oc
  | m -> prerr_endline ("unknown mode " ^ m); exit 2
