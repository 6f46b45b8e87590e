(* C01 C07 C08 C09 C12 C13 *)
open Cryptokit
open E
open Objs

let () = ()
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)
let both = [Cipher.Encrypt; Cipher.Decrypt]
let set s i c = let b = Bytes.of_string s in Bytes.set b i (Char.chr c); Bytes.unsafe_to_string b
let flip s bit = set s (bit / 8) (Char.code s.[bit / 8] lxor (1 lsl (bit land 7)))

(* ---------------- C07 : block permutations ---------------- *)
let xf (c : Block.block_cipher) s =
  let n = c#blocksize in
  let dst = Bytes.make n '\xee' in
  tr 1; c#transform (Bytes.of_string s) 0 dst 0; Bytes.to_string dst

let check_key bk k blocks =
  let r = bk.rbc k in
  let e = bk.benc k and d = bk.bdec k in
  List.iter (fun b ->
    trace ();
    let c = r.Ref.enc b in
    eqf (fun () -> Printf.sprintf "%s key=%s encryption of %s" bk.bn (Ref.hex k) (Ref.hex b)) c (xf e b);
    eqf (fun () -> Printf.sprintf "%s key=%s decryption of %s" bk.bn (Ref.hex k) (Ref.hex c)) b (xf d c);
    eqf (fun () -> Printf.sprintf "%s key=%s decryption of %s" bk.bn (Ref.hex k) (Ref.hex b)) (r.Ref.dec b) (xf d b)) blocks

let c07_kinds () =
  bks @ List.map (fun n -> { (List.nth bks 6) with bn = Printf.sprintf "blowfish%d" n; bkey = key n }) [4; 5; 7; 31; 55; 56]

let () = section "c07_keys" (fun () ->
  List.iter (fun bk ->
    let bs = bk.bbs in
    let b0 = [Ref.zeros bs; pat "blk" bs] in
    let kl = String.length bk.bkey in
    let bf = String.length bk.bn >= 8 && String.sub bk.bn 0 8 = "blowfish" in
    (* every byte of the key takes every value, around two base keys *)
    List.iter (fun (bname, base) ->
      for p = 0 to kl - 1 do
        let step = if bf && quick () && bk.bn <> "blowfish" then 37 else 1 in
        for v = 0 to 255 do
          if v mod step = 0 then
            case (fun () -> Printf.sprintf "%s base=%s key[%d]=%d" bk.bn bname p v) (fun () ->
              st_s (bk.bn, bname, p, v);
              check_key bk (set base p v) (if bf then [List.nth b0 1] else b0))
        done
      done) (if bf && quick () then ["pat", bk.bkey] else ["pat", bk.bkey; "zero", Ref.zeros kl; "ff", String.make kl '\xff']);
    (* single-bit and double-bit keys *)
    for i = 0 to 8 * kl - 1 do
      if not (bf && quick ()) then
      case (fun () -> Printf.sprintf "%s bit key %d" bk.bn i) (fun () ->
        st_s (bk.bn, "bit", i);
        let k = flip (Ref.zeros kl) i in
        check_key bk k b0;
        if not bf then
        for j = i + 1 to min (8 * kl - 1) (i + pick 9 64) do check_key bk (flip k j) [List.hd b0] done)
    done;
    (* DES parity *)
    if bk.bn = "des" || String.length bk.bn > 3 && String.sub bk.bn 0 4 = "3des" then
      for m = 0 to 255 do
        case (fun () -> Printf.sprintf "%s parity %d" bk.bn m) (fun () ->
          let k = String.mapi (fun i c -> if (m lsr (i mod 8)) land 1 = 1 then Char.chr (Char.code c lxor 1) else c) bk.bkey in
          let blk = pat "par" bs in
          eq "parity bits must not matter (encrypt)" (xf (bk.benc bk.bkey) blk) (xf (bk.benc k) blk);
          eq "parity bits must not matter (decrypt)" (xf (bk.bdec bk.bkey) blk) (xf (bk.bdec k) blk))
      done) (c07_kinds ());
  (* all Blowfish key lengths *)
  let bf = List.nth bks 6 in
  for n = 4 to 56 do
    for v = 0 to pick 1 5 do
      case (fun () -> Printf.sprintf "blowfish key length %d/%d" n v) (fun () ->
        st_s ("bfl", n, v);
        check_key bf (pat (Printf.sprintf "bfk%d" v) n) [pat "a" 8; Ref.zeros 8; String.make 8 '\xff'])
    done
  done)

let () = section "c07_blocks" (fun () ->
  List.iter (fun bk ->
    let bs = bk.bbs in
    List.iter (fun kn ->
      let k = if kn = 0 then bk.bkey else pat (Printf.sprintf "k07-%d" kn) (String.length bk.bkey) in
      let e = lazy (bk.benc k) and d = lazy (bk.bdec k) and r = lazy (bk.rbc k) in
      let chk b =
        trace ();
        let r = Lazy.force r in
        eqf (fun () -> Printf.sprintf "%s key %d encryption of %s" bk.bn kn (Ref.hex b)) (r.Ref.enc b) (xf (Lazy.force e) b);
        eqf (fun () -> Printf.sprintf "%s key %d decryption of %s" bk.bn kn (Ref.hex b)) (r.Ref.dec b) (xf (Lazy.force d) b) in
      List.iter (fun (bname, base) ->
        for p = 0 to bs - 1 do
          for v = 0 to 255 do
            case (fun () -> Printf.sprintf "%s key%d base=%s blk[%d]=%d" bk.bn kn bname p v) (fun () ->
              st_s (bk.bn, kn, bname, p, v); chk (set base p v))
          done
        done) ["pat", pat "b07" bs; "zero", Ref.zeros bs];
      for i = 0 to 8 * bs - 1 do
        case (fun () -> Printf.sprintf "%s key%d bits %d" bk.bn kn i) (fun () ->
          st_s (bk.bn, kn, i);
          let b = flip (Ref.zeros bs) i in
          chk b;
          for j = i + 1 to min (8 * bs - 1) (i + pick 16 128) do chk (flip b j) done)
      done;
      (* iterated permutation: walks through pseudo-random blocks *)
      for w = 0 to pick 3 63 do
        case (fun () -> Printf.sprintf "%s key%d walk %d" bk.bn kn w) (fun () ->
          let r = Lazy.force r in
          let b = ref (pat (Printf.sprintf "walk%d" w) bs) in
          for i = 1 to pick 1000 4000 do
            trace ();
            let c = r.Ref.enc !b in
            eqf (fun () -> Printf.sprintf "%s walk enc %s" bk.bn (Ref.hex !b)) c (xf (Lazy.force e) !b);
            eqf (fun () -> Printf.sprintf "%s walk dec %s" bk.bn (Ref.hex c)) !b (xf (Lazy.force d) c);
            b := c
          done)
      done) (range 0 (pick 1 5))) (c07_kinds ()))

(* positions: any two places of one or two buffers, exact footprint *)
let footprint what (c : Block.block_cipher) (want : string -> string) bs =
  let big = 3 * bs + 8 in
  let blk = pat "fp" bs in
  for so = 0 to bs + 4 do
    for d = 0 to bs + 4 do
      (* two buffers *)
      trace (); tr 1;
      let src = Bytes.of_string (pat "fpsrc" big) and dst = Bytes.of_string (pat "fpdst" big) in
      Bytes.blit_string blk 0 src so bs;
      let src0 = Bytes.to_string src in
      let exp = Bytes.copy dst in
      Bytes.blit_string (want blk) 0 exp d bs;
      c#transform src so dst d;
      eqf (fun () -> Printf.sprintf "%s: destination, src_ofs=%d dst_ofs=%d" what so d) (Bytes.to_string exp) (Bytes.to_string dst);
      eqf (fun () -> Printf.sprintf "%s: source modified, src_ofs=%d" what so) src0 (Bytes.to_string src);
      (* one buffer, any relative position, overlapping included *)
      let buf = Bytes.of_string (pat "fpone" big) in
      Bytes.blit_string blk 0 buf so bs;
      let exp = Bytes.copy buf in
      Bytes.blit_string (want blk) 0 exp d bs;
      c#transform buf so buf d;
      eqf (fun () -> Printf.sprintf "%s: same buffer, src_ofs=%d dst_ofs=%d" what so d) (Bytes.to_string exp) (Bytes.to_string buf)
    done
  done
let () = section "c07_positions" (fun () ->
  List.iter (fun bk ->
    List.iter (fun dir ->
      case (fun () -> Printf.sprintf "%s %s positions" bk.bn (dirname dir)) (fun () ->
        st_s (bk.bn, dir);
        let r = bk.rbc bk.bkey in
        eqi "blocksize" bk.bbs (bk.benc bk.bkey)#blocksize; eqi "blocksize" bk.bbs (bk.bdec bk.bkey)#blocksize;
        footprint (bk.bn ^ "/" ^ dirname dir) (if dir = Cipher.Encrypt then bk.benc bk.bkey else bk.bdec bk.bkey)
          (if dir = Cipher.Encrypt then r.Ref.enc else r.Ref.dec) bk.bbs)) both) bks)

(* ---------------- C08 : chaining modes over any block cipher ---------------- *)
let chain mode dir iv bs : Block.block_cipher =
  let enc = toy_enc bs and dec = toy_dec bs in
  match mode, dir with
  | Cipher.ECB, Cipher.Encrypt -> enc | Cipher.ECB, Cipher.Decrypt -> dec
  | CBC, Cipher.Encrypt -> new Block.cbc_encrypt ?iv enc
  | CBC, Cipher.Decrypt -> new Block.cbc_decrypt ?iv dec
  | CFB n, Cipher.Encrypt -> new Block.cfb_encrypt ?iv n enc
  | CFB n, Cipher.Decrypt -> new Block.cfb_decrypt ?iv n enc
  | OFB n, _ -> new Block.ofb ?iv n enc
  | CTR, _ -> new Block.ctr ?iv enc
  | CTR_N n, _ -> new Block.ctr ?iv ~inc:n enc

let some_modes bs = if bs <= 17 then all_modes bs else
  [Cipher.ECB; CBC; CTR; CFB 1; CFB 64; CFB (bs - 1); CFB bs; OFB 1; OFB 64; OFB (bs - 1); OFB bs; CTR_N 1; CTR_N 7; CTR_N 8; CTR_N bs]
  |> List.filter (function Cipher.CFB n | OFB n | CTR_N n -> n <= bs | _ -> true) |> List.sort_uniq compare
(* all histories of [depth] block operations: block value x placement *)
let () = section "c08_histories" (fun () ->
  let depth = pick 3 4 in
  List.iter (fun bs ->
    let bc = toy_bc bs in
    List.iter (fun mode ->
      List.iter (fun dir ->
        List.iter (fun (ivn, iv) ->
          let u = mode_unit bs mode in
          let riv = match iv with None -> Ref.zeros bs | Some s -> s in
          let alpha = [| Ref.zeros u; pat "c08a" u; String.make u '\xff' |] in
          let nops = 3 * 3 in
          let total = int_of_float (float nops ** float depth) in
          let chunk = (total + 2) / 3 in
          for part = 0 to 2 do
            case (fun () -> Printf.sprintf "toy%d %s %s iv=%s histories part %d" bs (mode_name mode) (dirname dir) ivn part) (fun () ->
              for h = part * chunk to min total ((part + 1) * chunk) - 1 do
                trace ();
                let c = chain mode dir iv bs in
                let inp = Buffer.create 64 and out = Buffer.create 64 in
                let h = ref h in
                for _ = 1 to depth do
                  let op = !h mod nops in h := !h / nops;
                  let b = alpha.(op mod 3) in
                  tr 1;
                  Buffer.add_string inp b;
                  (match op / 3 with
                   | 0 -> (* in place *)
                     let buf = Bytes.of_string ("?" ^ b ^ "!") in
                     c#transform buf 1 buf 1;
                     if Bytes.get buf 0 <> '?' || Bytes.get buf (u + 1) <> '!' then fail "wrote outside the block";
                     Buffer.add_subbytes out buf 1 u
                   | 1 -> (* two buffers *)
                     let src = Bytes.of_string ("ab" ^ b) and dst = Bytes.make (u + 3) '#' in
                     c#transform src 2 dst 3;
                     if Bytes.sub_string dst 0 3 <> "###" then fail "wrote outside the block";
                     if Bytes.to_string src <> "ab" ^ b then fail "source modified";
                     Buffer.add_subbytes out dst 3 u
                   | _ -> (* shifted in one buffer *)
                     let buf = Bytes.of_string (b ^ String.make u '~') in
                     c#transform buf 0 buf u;
                     Buffer.add_subbytes out buf u u)
                done;
                let i = Buffer.contents inp in
                st_s (bs, mode, dir, ivn, i);
                eqf (fun () -> Printf.sprintf "input blocks %s" (Ref.hex i)) (mode_model bc riv dir i mode) (Buffer.contents out)
              done)
          done) ["zero", None; "pat", Some (ivs bs); "ff", Some (String.make bs '\xff')]) both) (some_modes bs))
    (pick [1; 2; 3; 4; 5; 8; 16; 64; 72; 79] [1; 2; 3; 4; 5; 6; 7; 8; 9; 16; 17; 63; 64; 65; 72; 79; 128]))

let () = section "c08_modes" (fun () ->
  (* every block size, every mode and chunk size, through the transform interface *)
  List.iter (fun bs ->
    let bc = toy_bc bs in
    List.iter (fun mode ->
      let u = mode_unit bs mode in
      List.iter (fun dir ->
        case (fun () -> Printf.sprintf "toy%d %s %s" bs (mode_name mode) (dirname dir)) (fun () ->
          st_s (bs, mode, dir);
          let iv = ivs bs in
          let c = chain mode dir (Some iv) bs in
          eqi "blocksize of the chained cipher" u c#blocksize;
          let s = pat "c08" (u * 7) in
          tr 1; trace ();
          eq "transform" (mode_model bc iv dir s mode) (transform_string (new Block.cipher c) s);
          (* padded wrapping *)
          if u <= 255 then
            List.iter (fun (pad : pad) ->
              for l = 0 to 2 * u do
                if l <= 2 || l >= u - 1 && l <= u + 1 || l >= 2 * u - 1 then begin
                  let c = chain mode dir (Some iv) bs in
                  let p = Option.get (pad_arg pad) in
                  let inp = if dir = Cipher.Encrypt then pat "c08p" l
                    else mode_model bc iv Cipher.Encrypt (pad_model pad u (pat "c08p" l)) mode in
                  tr 1; trace ();
                  let t = if dir = Cipher.Encrypt then new Block.cipher_padded_encrypt p c else new Block.cipher_padded_decrypt p c in
                  eq "padded transform" (cipher_model bc mode iv pad dir inp) (outcome (fun () -> transform_string t inp))
                end
              done) [Len; P8000];
          (* as a MAC over the chained cipher itself *)
          if dir = Cipher.Encrypt then begin
            let s = pat "c08m" (3 * u) in
            (* CBC-MAC of the chained cipher seen as a (stateful) block cipher *)
            let c1 = chain mode dir (Some iv) bs in
            let acc = ref (Ref.zeros u) in
            List.iter (fun b -> acc := xf c1 (Ref.xor b !acc)) (Ref.units u s);
            eq "mac over the mode" !acc (hash_string (new Block.mac (chain mode dir (Some iv) bs)) s)
          end)) both) (some_modes bs))
    (pick (range 1 17 @ [24; 32; 33] @ range 60 82 @ [127; 128; 129; 200; 255; 256; 257; 300; 511; 512; 513; 1024; 5000]) (range 1 600 @ [1024; 5000])))

let () = section "c08_real" (fun () ->
  List.iter (fun bk ->
    List.iter (fun mode ->
      List.iter (fun dir ->
        List.iter (fun (ivn, iv) ->
          case (fun () -> Printf.sprintf "%s %s %s iv=%s" bk.bn (mode_name mode) (dirname dir) ivn) (fun () ->
            st_s (bk.bn, mode, dir, ivn);
            let bc = rbc bk bk.bkey in
            let u = mode_unit bk.bbs mode in
            let riv = match iv with None -> Ref.zeros bk.bbs | Some s -> s in
            for n = 0 to pick 5 20 do
              let s = pat "c08r" (n * u) in
              trace (); tr 1;
              let t = match iv with None -> bk.cipher ~mode bk.bkey dir | Some iv -> bk.cipher ~mode ~iv bk.bkey dir in
              eqf (fun () -> Printf.sprintf "%d blocks" n) (mode_model bc riv dir s mode) (transform_string t s)
            done))
          ((("default", None) :: (if mode = Cipher.ECB then [] else ["pat", Some (ivs bk.bbs); "ff", Some (String.make bk.bbs '\xff')])))) both)
      (all_modes bk.bbs)) bks)

(* ---------------- C09 : counters ---------------- *)
(* run a CTR stream until it refuses; never accept a repeated counter *)
let ctr_exhaust ~bs ~n ~iv ~limit =
  let total = if n < 8 then 1 lsl (8 * n) else max_int in
  let bc = toy_bc bs in
  let c = new Block.ctr ~iv ~inc:n (toy_enc bs) in
  let dst = Bytes.make bs '\000' and src = Bytes.of_string (pat "ctrx" bs) in
  let s = Bytes.to_string src in
  let refused = ref false in
  let i = ref 0 in
  let stop = min limit (if total = max_int then limit else total + 5) in
  let delivered = ref 0 in
  while !i < stop do
    Bytes.fill dst 0 bs '\xAA';
    if !i land 0xfffff = 0 then beat ();
    (match c#transform src 0 dst 0 with
     | () ->
       incr delivered;
       if !refused then fail "block %d accepted after Message_too_long" !i;
       if !i >= total then fail "block %d accepted: its counter value was used by block %d" !i (!i - total);
       let want = Ref.xor s (bc.Ref.enc (Ref.ctr_block iv n !i)) in
       if Bytes.to_string dst <> want then fail "block %d: expected %s got %s" !i (Ref.hex want) (Ref.hex (Bytes.to_string dst))
     | exception Error Message_too_long ->
       if !i < total - 1 then fail "Message_too_long at block %d of %d" !i total;
       refused := true;
       (* nothing may be produced under a counter value that is used again *)
       if Bytes.to_string dst <> String.make bs '\xAA' && !i >= total then fail "output produced with a repeated counter at block %d" !i);
    incr i
  done;
  tr !i; trace ();
  !delivered

let () = section "c09_ctr_small" (fun () ->
  List.iter (fun bs ->
    List.iter (fun n ->
      if n <= bs then begin
        (* every start value of the last counter byte, several upper bytes *)
        List.iter (fun (hn, hi) ->
          for lo = 0 to 255 do
            if n = 1 || lo mod (pick 64 16) = (if lo >= 128 then 63 mod (pick 64 16) else 0) then
            case (fun () -> Printf.sprintf "CTR_N %d block %d iv=%s..%02x" n bs hn lo) (fun () ->
              let iv = String.make (bs - 1) hi ^ String.make 1 (Char.chr lo) in
              st_s (bs, n, hn, lo);
              ignore (ctr_exhaust ~bs ~n ~iv ~limit:max_int))
          done) ["00", '\000'; "ff", '\xff'; "7f", '\x7f']
      end) [1; 2]) (pick [1; 2; 3; 5; 8; 16; 64; 77] [1; 2; 3; 4; 5; 6; 7; 8; 9; 16; 17; 32; 63; 64; 65; 72; 77; 128]);
  (* three-byte counter: 2^24 blocks *)
  List.iter (fun (hn, iv) ->
    case (fun () -> "CTR_N 3 block 3 iv=" ^ hn) (fun () -> ignore (ctr_exhaust ~bs:3 ~n:3 ~iv ~limit:max_int)))
    (pick [] ["000000", "\000\000\000"; "ff8000", "\xff\x80\000"; "fffffe", "\xff\xff\xfe"]))

let () = section "c09_ctr_carry" (fun () ->
  (* carries: k trailing ff bytes, every counter width, every block size *)
  List.iter (fun bs ->
    for n = 1 to bs do
      for k = 0 to bs do
        List.iter (fun lo ->
          case (fun () -> Printf.sprintf "carry block=%d n=%d k=%d lo=%d" bs n k lo) (fun () ->
            let iv = String.init bs (fun i -> if i = bs - 1 then Char.chr lo else if i >= bs - k then '\xff' else Char.chr (0x10 + i)) in
            st_s (bs, n, k, lo);
            ignore (ctr_exhaust ~bs ~n ~iv ~limit:(pick 20 600));
            (* the full-width CTR too *)
            if n = bs then begin
              let bc = toy_bc bs in
              let s = pat "cc" (bs * 12) in
              eq "CTR" (Ref.ctr bs bc iv s) (transform_string (new Block.cipher (new Block.ctr ~iv (toy_enc bs))) s)
            end)) [0xfe; 0xff; 0x7f; 0xf5]
      done
    done) (pick [1; 2; 3; 4; 8; 16; 17] [1; 2; 3; 4; 5; 6; 7; 8; 9; 12; 16; 17; 32; 64; 71]))

let () = section "c09_ctr_transform" (fun () ->
  (* exhaustion seen through the transform interface, the caller catching the error and going on:
     never more than 2^8 blocks delivered, all under distinct counters *)
  List.iter (fun bk ->
    List.iter (fun lo ->
      List.iter (fun feed ->
        List.iter (fun after ->
          case (fun () -> Printf.sprintf "%s CTR_N 1 iv low=%d feed=%d after=%d" bk.bn lo feed after) (fun () ->
            let bs = bk.bbs in
            let iv = Ref.zeros (bs - 1) ^ String.make 1 (Char.chr lo) in
            st_s (bk.bn, lo, feed, after);
            let t = bk.cipher ~mode:(Cipher.CTR_N 1) ~iv ?pad:(if after >= 4 then Some Padding.length else None) bk.bkey Cipher.Encrypt in
            let s = pat "ctrt" (bs * 300) in
            let fed = ref 0 and out = Buffer.create 5000 and errs = ref 0 in
            let put n =
              tr 1;
              (try t#put_substring (Bytes.unsafe_of_string s) !fed n with Error Message_too_long -> incr errs);
              fed := !fed + n;
              Buffer.add_string out t#get_string in
            while !fed < String.length s do put (min feed (String.length s - !fed)) done;
            (try t#flush with Error _ -> incr errs);
            Buffer.add_string out t#get_string;
            (match after land 3 with
             | 0 -> () | 1 -> (try t#finish with Error _ -> incr errs)
             | 2 -> (try t#put_string (Ref.zeros bs); t#finish with Error _ -> incr errs)
             | _ -> for _ = 1 to 3 do (try t#put_string (Ref.zeros (3 * bs)); t#finish with Error _ -> incr errs) done);
            Buffer.add_string out t#get_string;
            trace ();
            let o = Buffer.contents out in
            let nb = String.length o / bs in
            if nb > 256 then fail "%d blocks delivered under an 8-bit counter" nb;
            if nb < 255 then fail "only %d blocks delivered under an 8-bit counter" nb;
            if !errs = 0 then fail "300 blocks under an 8-bit counter: Message_too_long was never raised";
            let bc = rbc bk bk.bkey in
            eq "blocks delivered before the error" (Ref.ctr 1 bc iv (String.sub s 0 (255 * bs))) (String.sub o 0 (255 * bs))))
        [0; 1; 2; 3; 5; 6; 7]) [1; 7; 16; 24; 64; 1000; 4800]) [0; 1; 128; 255]) (pick [List.hd bks; List.nth bks 3] bks))

(* GF(2^128) helpers for choosing GCM counters *)
let gmul a b = Ref.c_ghash b a
let ginv h =
  (* h^(2^128 - 2) *)
  let r = ref h and acc = ref None in
  for i = 1 to 127 do
    r := gmul !r !r;
    acc := Some (match !acc with None -> !r | Some a -> gmul a !r)
  done; Option.get !acc
(* 16-byte IV whose derived initial counter block is j0 *)
let iv_for_j0 h j0 =
  let hi = ginv h in
  let x = gmul j0 hi in
  gmul (Ref.xor x (Ref.zeros 8 ^ Ref.be64s 128)) hi
let () = section "c09_gcm" (fun () ->
  List.iter (fun kl ->
    let k = pat "gcmctr" kl in
    let h = lazy ((Ref.aes k).Ref.enc (Ref.zeros 16)) in
    List.iter (fun hi ->
      List.iter (fun low ->
        List.iter (fun nbytes ->
          case (fun () -> Printf.sprintf "gcm key%d J0=%02x..%08x len=%d" (8*kl) (Char.code hi) low nbytes) (fun () ->
            let j0 = Bytes.make 16 hi in
            Bytes.set_int32_be j0 12 (Int32.of_int low);
            let j0 = Bytes.to_string j0 in
            let iv = iv_for_j0 (Lazy.force h) j0 in
            if Ref.gcm_j0 (Lazy.force h) iv <> j0 then failwith "iv_for_j0";
            st_s (kl, hi, low, nbytes);
            let p = pat "gcmc" nbytes in
            trace (); tr 2;
            let (c, tag) = Ref.gcm_encrypt k iv "h" p in
            let (c', tag') = auth_transform_string_detached (AEAD.aes_gcm ~header:"h" ~iv k AEAD.Encrypt) p in
            eq "ciphertext" c c'; eq "tag" tag tag';
            let (p', tag'') = auth_transform_string_detached (AEAD.aes_gcm ~header:"h" ~iv k AEAD.Decrypt) c in
            eq "decryption" p p'; eq "tag on decryption" tag tag''))
          (pick [1; 15; 16; 17; 47; 160; 700; 4111] [1; 15; 16; 17; 33; 160; 700; 4111; 5000]))
        [0xffffffff; 0xfffffffe; 0xfffffff7; 0xffffff00; 0xfffeffff; 0x00ffffff; 0x0000ffff; 0xff; 0x7fffffff; 0; 0x7f; 0xff00ff; 0xfeffffff])
      ['\000'; '\xff'; '\x5a']) [16; 24; 32])

(* ---------------- C12 : padding ---------------- *)
let strip_outcome (p : Padding.scheme) s =
  match p#strip (Bytes.of_string s) with
  | n -> Some n | exception Error Bad_padding -> None
let chk_strip pad s =
  tr 1;
  let w = strip_model pad s and g = strip_outcome (Option.get (pad_arg pad)) s in
  if w <> g then
    let sh = function None -> "Bad_padding" | Some n -> string_of_int n in
    fail "%s#strip %s: expected %s, got %s" (pad_name pad) (Ref.hex s) (sh w) (sh g)
let () = section "c12_pad" (fun () ->
  List.iter (fun pad ->
    for bs = 1 to 255 do
      case (fun () -> Printf.sprintf "%s block %d" (pad_name pad) bs) (fun () ->
        let p = Option.get (pad_arg pad) in
        List.iter (fun fill ->
          for used = 0 to bs - 1 do
            st3 bs used (Hashtbl.hash pad); trace (); tr 2;
            let b = Bytes.of_string fill in
            p#pad b used;
            eqf (fun () -> Printf.sprintf "pad %d used of %d" used bs)
              (pad_model pad bs (String.sub fill 0 used)) (Bytes.to_string b);
            let b0 = Bytes.to_string b in
            eqi (Printf.sprintf "strip of %d used of %d" used bs) used (p#strip b);
            eq "strip must not modify the block" b0 (Bytes.to_string b);
            (* single-byte corruptions of every position *)
            for pos = 0 to bs - 1 do
              List.iter (fun v -> chk_strip pad (set b0 pos v))
                (pick [0; 0x80; Char.code b0.[pos] lxor 1; bs] [0; 1; 0x80; 0xff; Char.code b0.[pos] lxor 1; Char.code b0.[pos] lxor 0x80; bs; (bs + 1 - used) land 255; bs - used])
            done
          done;
          (* every value of the last byte *)
          for v = 0 to 255 do
            chk_strip pad (set fill (bs - 1) v);
            chk_strip pad (String.make bs (Char.chr v))
          done) [Ref.zeros bs; pat "c12" bs; String.make bs '\x80']
        )
    done) [Len; P8000];
  (* exhaustive: all blocks of 1, 2 and 3 bytes *)
  for hi = 0 to 255 do
    case (fun () -> Printf.sprintf "all blocks of 1..3 bytes starting with %d" hi) (fun () ->
      let s1 = String.make 1 (Char.chr hi) in
      chk_strip Len s1; chk_strip P8000 s1;
      for a = 0 to 255 do
        let s2 = s1 ^ String.make 1 (Char.chr a) in
        chk_strip Len s2; chk_strip P8000 s2;
        st2 hi a;
        for b = 0 to 255 do
          let s3 = s2 ^ String.make 1 (Char.chr b) in
          chk_strip Len s3; chk_strip P8000 s3
        done
      done)
  done;
  (* structured 8- and 16-byte blocks over a small alphabet: all words *)
  List.iter (fun bs ->
    let alpha = [| '\000'; '\x80'; '\001'; Char.chr 2; Char.chr bs |] in
    let free = pick 6 8 in
    let total = int_of_float (5. ** float free) in
    for first = 0 to 4 do
      case (fun () -> Printf.sprintf "block %d, all suffixes over 5 symbols, filler %d" bs first) (fun () ->
        for w = 0 to total - 1 do
          let b = Bytes.make bs alpha.(first) in
          let w = ref w in
          for i = 0 to free - 1 do Bytes.set b (bs - 1 - i) alpha.(!w mod 5); w := !w / 5 done;
          let s = Bytes.to_string b in
          chk_strip Len s; chk_strip P8000 s
        done; trace ())
    done) [8; 16])

let () = section "c12_decrypt" (fun () ->
  (* padded decryption of arbitrary final blocks: identity-like toy cipher, all paddings *)
  List.iter (fun bs ->
    let bc = toy_bc bs in
    List.iter (fun pad ->
      for nblocks = 0 to 3 do
        for last = 0 to 255 do
          if nblocks > 0 || last <= 2 * bs then
          case (fun () -> Printf.sprintf "toy%d %s %d blocks, last byte %d" bs (pad_name pad) nblocks last) (fun () ->
            let p = Option.get (pad_arg pad) in
            st_s (bs, pad, nblocks, last);
            if nblocks = 0 then begin
              (* lengths that are not a positive multiple of the block size *)
              let s = pat "c12l" last in
              let t = new Block.cipher_padded_decrypt p (toy_dec bs) in
              trace (); tr 1;
              eq (Printf.sprintf "length %d" last) (cipher_model bc Cipher.ECB "" pad Cipher.Decrypt s) (outcome (fun () -> transform_string t s))
            end else
              List.iter (fun fill ->
                let plain = pat "c12d" (bs * (nblocks - 1)) ^ set fill (bs - 1) last in
                List.iter (fun extra ->
                  let s = Ref.ecb true bc plain ^ pat "x" extra in
                  let t = new Block.cipher_padded_decrypt p (toy_dec bs) in
                  trace (); tr 2;
                  let o = outcome (fun () -> t#put_string s; t#finish; "") in
                  let rest = t#get_string in
                  let m = cipher_model bc Cipher.ECB "" pad Cipher.Decrypt s in
                  if String.sub m 0 3 = "ok:" then begin
                    eq "outcome" "ok:" o; eq "plaintext" m (ok rest)
                  end else begin
                    eq "outcome" m o;
                    let full = if extra = 0 then nblocks - 1 else nblocks in
                    if String.length rest > full * bs then fail "%d bytes available after %s" (String.length rest) o;
                    eq "bytes before the malformed end" (String.sub plain 0 (String.length rest)) rest
                  end) (if bs > 1 then [0; 1; bs - 1] else [0]))
                [Ref.zeros bs; String.make bs (Char.chr last); String.make bs '\x80'; pat "c12f" bs])
        done
      done) [Len; P8000]) [1; 2; 3; 8; 16; 31])

(* ---------------- C13 : stream ciphers ---------------- *)
let c13_sizes () = pick [0; 1; 2; 3; 5; 7; 8; 15; 31; 63; 64; 65; 127; 128; 129] [0; 1; 2; 3; 4; 5; 7; 8; 9; 15; 16; 31; 33; 62; 63; 64; 65; 66; 127; 128; 129; 191; 192; 193; 256; 1000]
let c13_run mk ks sizes =
  (* stream_cipher interface, offsets varying, in place or not; model = keystream slice *)
  let (c : Stream.stream_cipher) = mk () in
  let pos = ref 0 in
  List.iteri (fun i n ->
    tr 1;
    let so = (i * 3 + 1) mod 8 and d = (i * 5 + 2) mod 9 in
    let data = pat "c13" n in
    let want = Ref.xor data (String.sub ks !pos n) in
    if i land 1 = 0 then begin
      let src = Bytes.of_string (String.make so 's' ^ data ^ "zz") and dst = Bytes.make (n + d + 3) '#' in
      c#transform src so dst d n;
      eqf (fun () -> Printf.sprintf "call %d of %d bytes at position %d" i n !pos) (String.make d '#' ^ want ^ "###") (Bytes.to_string dst)
    end else begin
      let buf = Bytes.of_string (String.make so 's' ^ data ^ "zz") in
      c#transform buf so buf so n;
      eqf (fun () -> Printf.sprintf "in-place call %d of %d bytes at position %d" i n !pos) (String.make so 's' ^ want ^ "zz") (Bytes.to_string buf)
    end;
    pos := !pos + n) sizes;
  trace ()
let () = section "c13_calls" (fun () ->
  let sizes = c13_sizes () in
  let mx = List.fold_left max 0 sizes in
  let kinds =
    List.concat_map (fun kl ->
      List.concat_map (fun (ivn, iv) ->
        List.map (fun ctr ->
          let iv8 = match iv with Some s -> s | None -> Ref.zeros 8 in
          (Printf.sprintf "chacha%d iv=%s ctr=%Ld" (8*kl) ivn ctr,
           (fun () -> (new Stream.chacha20 ?iv ~ctr (key kl) :> Stream.stream_cipher)),
           lazy (Ref.chacha_keystream ~iv:iv8 ~ctr (key kl) (4 * mx + 64))))
          (if ivn = "12" then [0L; 1L; 0x7fffffffL; 0xffff0000L; 0xfffffffeL; 0xffffffffL]
           else [0L; 1L; 0xffffffffL; 0xfffffffeL; 0x1_0000_0000L; Int64.max_int; 0x7fffffff_ffffffffL; -2L; 0xffff_ffff_ffffL]))
        ["none", None; "8", Some (ivs 8); "12", Some (ivs 12)]) [16; 32]
    @ List.map (fun kl -> (Printf.sprintf "arcfour%d" kl, (fun () -> (new Stream.arcfour (key kl) :> Stream.stream_cipher)),
                           lazy (Ref.rc4_keystream (key kl) (4 * mx + 64)))) [1; 5; 16; 256] in
  List.iter (fun (n, mk, ks) ->
    List.iter (fun a ->
      case (fun () -> Printf.sprintf "%s calls %d,*,*" n a) (fun () ->
        List.iter (fun b -> List.iter (fun c ->
          st_s (n, a, b, c);
          c13_run mk (Lazy.force ks) [a; b; c; 1]) sizes) sizes)) sizes) kinds)
let () = section "c13_params" (fun () ->
  (* every key length of arcfour, every byte of chacha key/iv/counter *)
  for kl = 1 to 256 do
    case (fun () -> Printf.sprintf "arcfour key length %d" kl) (fun () ->
      st2 1 kl;
      List.iter (fun k ->
        let ks = Ref.rc4_keystream k 1500 in
        c13_run (fun () -> (new Stream.arcfour k :> Stream.stream_cipher)) ks [300; 1; 256; 700];
        let s = pat "rc4" 777 in
        trace ();
        eq "Cipher.arcfour" (Ref.xor s (String.sub ks 0 777)) (transform_string (Cipher.arcfour k Cipher.Encrypt) s))
        [pat "rc4k" kl; Ref.zeros kl; String.make kl '\xff'])
  done;
  List.iter (fun kl ->
    for p = 0 to kl - 1 do
      for v = 0 to 255 do
        case (fun () -> Printf.sprintf "chacha%d key[%d]=%d" (8*kl) p v) (fun () ->
          st3 kl p v;
          let k = set (key kl) p v in
          let s = pat "cha" 130 in
          trace (); tr 1;
          eq "chacha20" (Ref.xor s (Ref.chacha_keystream ~iv:(ivs 8) k 130)) (transform_string (Cipher.chacha20 ~iv:(ivs 8) k Cipher.Encrypt) s);
          eq "chacha20/12" (Ref.xor s (Ref.chacha_keystream ~iv:(ivs 12) ~ctr:7L k 130)) (transform_string (Cipher.chacha20 ~iv:(ivs 12) ~ctr:7L k Cipher.Decrypt) s))
      done
    done) [16; 32];
  List.iter (fun il ->
    for p = 0 to il - 1 do
      for v = 0 to 255 do
        case (fun () -> Printf.sprintf "chacha iv%d[%d]=%d" il p v) (fun () ->
          st3 il p v;
          let iv = set (ivs il) p v in
          let s = pat "cha" 70 in
          trace (); tr 1;
          eq "chacha20" (Ref.xor s (Ref.chacha_keystream ~iv (key 32) 70)) (transform_string (Cipher.chacha20 ~iv (key 32) Cipher.Encrypt) s))
      done
    done) [8; 12];
  (* every counter bit; suffix property *)
  for b = 0 to 63 do
    case (fun () -> Printf.sprintf "chacha counter 2^%d neighbourhood" b) (fun () ->
      List.iter (fun d ->
        let c = Int64.add (Int64.shift_left 1L b) (Int64.of_int d) in
        List.iter (fun (kl, iv) ->
          let is12 = (match iv with Some s -> String.length s = 12 | None -> false) in
          if not is12 || (c >= 0L && c <= 0xffff_ffffL) then begin
            let s = pat "chc" 400 in
            let riv = match iv with None -> Ref.zeros 8 | Some s -> s in
            trace (); tr 1; st3 b d kl;
            eqf (fun () -> Printf.sprintf "chacha20 ctr=%Ld" c) (Ref.xor s (Ref.chacha_keystream ~iv:riv ~ctr:c (key kl) 400))
              (transform_string (Cipher.chacha20 ?iv ~ctr:c (key kl) Cipher.Encrypt) s)
          end) [32, None; 16, Some (ivs 8); 32, Some (ivs 12); 16, Some (ivs 12)]) [-3; -2; -1; 0; 1])
  done;
  for c = 0 to pick 40 300 do
    case (fun () -> Printf.sprintf "chacha suffix at counter %d" c) (fun () ->
      List.iter (fun iv ->
        let n = 64 * c + 200 in
        let full = transform_string (Cipher.chacha20 ~iv (key 32) Cipher.Encrypt) (Ref.zeros n) in
        let suf = transform_string (Cipher.chacha20 ~iv ~ctr:(Int64.of_int c) (key 32) Cipher.Encrypt) (Ref.zeros 200) in
        trace (); tr 2;
        eq "suffix" (String.sub full (64 * c) 200) suf) [ivs 8; ivs 12])
  done;
  (* long streams: every position up to the bound *)
  let n = pick 300_000 20_000_000 in
  List.iteri (fun i (nm, mk, ks) ->
    case (fun () -> Printf.sprintf "%s, %d bytes" nm n) (fun () ->
      let z = Ref.zeros n in
      let w : string = ks () in
      trace (); tr 1; st2 99 i;
      eq "long keystream" w (transform_string (mk ()) z)))
    [ "chacha32", (fun () -> Cipher.chacha20 ~iv:(ivs 8) (key 32) Cipher.Encrypt), (fun () -> Ref.chacha_keystream ~iv:(ivs 8) (key 32) n);
      "chacha32/12", (fun () -> Cipher.chacha20 ~iv:(ivs 12) (key 32) Cipher.Encrypt), (fun () -> Ref.chacha_keystream ~iv:(ivs 12) (key 32) n);
      "chacha16 near 2^32", (fun () -> Cipher.chacha20 ~ctr:0xffff_ff00L (key 16) Cipher.Encrypt), (fun () -> Ref.chacha_keystream ~ctr:0xffff_ff00L (key 16) n);
      "arcfour", (fun () -> Cipher.arcfour (key 13) Cipher.Encrypt), (fun () -> Ref.rc4_keystream (key 13) n) ])

(* ---------------- C01 : round trips ---------------- *)
let by_pieces (t : transform) k s =
  let b = Bytes.unsafe_of_string s and n = String.length s in
  let out = Buffer.create (n + 64) in
  let p = ref 0 in
  while !p < n do
    let m = min k (n - !p) in
    t#put_substring b !p m; p := !p + m;
    if !p mod 3 = 0 then Buffer.add_string out t#get_string
  done;
  t#finish; Buffer.add_string out t#get_string; Buffer.contents out
let () = section "c01_roundtrip" (fun () ->
  List.iter (fun bk ->
    List.iter (fun mode ->
      List.iter (fun pad ->
        case (fun () -> Printf.sprintf "%s/%s/%s" bk.bn (mode_name mode) (pad_name pad)) (fun () ->
          let bs = bk.bbs in
          let u = mode_unit bs mode in
          (* through the capacities 256, 512, 1024, 2048... of the output buffer *)
          let lens = range 0 (pick (3 * bs + 2) (8 * bs + 2)) @ range 238 275 @ range 494 515 @ range 1000 1026 @ [2047; 2048; 2049; 4096]
                     @ pick [] (range 1006 1050 @ range 2030 2060 @ [4095; 4096; 4097; 65537]) in
          List.iter (fun iv ->
            if mode <> Cipher.ECB || iv = None then
            List.iter (fun n ->
              if not (mode = Cipher.CTR_N 1 && n > 250 * bs) then begin
                let p = pat "c01" n in
                st_s (bk.bn, mode, pad, iv, n); trace (); tr 2;
                let mk dir = bk.cipher ~mode ?pad:(pad_arg pad) ?iv bk.bkey dir in
                match transform_string (mk Cipher.Encrypt) p with
                | c ->
                  if pad = No && n mod u <> 0 then fail "message of %d bytes accepted without padding" n;
                  eqi (Printf.sprintf "ciphertext length for %d bytes" n) (if pad = No then n else (n / u + 1) * u) (String.length c);
                  (match transform_string (mk Cipher.Decrypt) c with
                   | p' -> eqf (fun () -> Printf.sprintf "round trip of %d bytes" n) p p'
                   | exception e -> fail "decrypting %d bytes: %s" n (exn_string e));
                  if n <= 3 * bs || n = 2048 || n = 4096 then
                    List.iter (fun k ->
                      tr 2;
                      eqf (fun () -> Printf.sprintf "round trip, %d bytes decrypted by pieces of %d" n k) p (by_pieces (mk Cipher.Decrypt) k c);
                      eqf (fun () -> Printf.sprintf "round trip, %d bytes encrypted by pieces of %d" n k) p (transform_string (mk Cipher.Decrypt) (by_pieces (mk Cipher.Encrypt) k p)))
                      ([1; 3; bs - 1; bs; bs + 1] @ (if n > 2000 then [255; 257; 1000; 1025] else []));
                  (* a ciphertext of the wrong length is refused *)
                  List.iter (fun k ->
                    if String.length c > k && k mod u <> 0 then begin
                      tr 1;
                      match transform_string (mk Cipher.Decrypt) (String.sub c 0 (String.length c - k)) with
                      | _ -> fail "ciphertext cut by %d bytes accepted" k
                      | exception Error Wrong_data_length -> ()
                    end) [1; u - 1; u + 1]
                | exception Error Wrong_data_length when pad = No && n mod u <> 0 -> ()
              end) lens;
            if pad <> No then begin
              tr 1;
              match transform_string (bk.cipher ~mode ?pad:(pad_arg pad) ?iv bk.bkey Cipher.Decrypt) "" with
              | _ -> fail "empty ciphertext accepted although padding is expected"
              | exception Error Wrong_data_length -> ()
            end) [None; Some (ivs bs)]))
        [No; Len; P8000]) (all_modes bk.bbs)) bks;
  List.iter (fun t ->
    if String.length t.name > 4 && Filename.basename t.name = "enc" then
      case (fun () -> "stream " ^ t.name) (fun () ->
        let dn = String.sub t.name 0 (String.length t.name - 3) ^ "dec" in
        let d = List.find (fun t -> t.name = dn) (streams ()) in
        List.iter (fun n ->
          st_s (t.name, n); trace (); tr 2;
          let p = pat "c01s" n in
          let c = transform_string (t.mk ()) p in
          eqi "ciphertext length" n (String.length c);
          eq "round trip" p (transform_string (d.mk ()) c);
          if n <= 300 || n land 255 <= 1 then
            List.iter (fun k ->
              tr 2;
              eqf (fun () -> Printf.sprintf "round trip, %d bytes decrypted by pieces of %d" n k) p (by_pieces (d.mk ()) k c);
              eqf (fun () -> Printf.sprintf "round trip, %d bytes encrypted by pieces of %d" n k) p (transform_string (d.mk ()) (by_pieces (t.mk ()) k p)))
              [1; 3; 16; 63; 64; 65; 100; 128; 200])
          (range 0 (pick 1100 4200) @ [2047; 2048; 2049; 5000; 70000]))) (streams ()))

(* all ciphers, keys of every byte, short messages: decryption inverts encryption *)
let () = section "c01_keys" (fun () ->
  List.iter (fun bk ->
    let kl = String.length bk.bkey in
    (* every value of every byte of the key and of the block *)
    let ecb name k b =
      tr 2;
      eqf (fun () -> name ()) b (transform_string (bk.cipher ~mode:Cipher.ECB k Cipher.Decrypt) (transform_string (bk.cipher ~mode:Cipher.ECB k Cipher.Encrypt) b)) in
    List.iteri (fun bi base ->
      for p = 0 to kl - 1 do
        case (fun () -> Printf.sprintf "%s base %d: all values of key byte %d" bk.bn bi p) (fun () ->
          trace ();
          let vs = if bk.bn = "blowfish" then pick [0; 1; 2; 4; 8; 16; 32; 64; 127; 128; 255] (range 0 255) else range 0 255 in
          List.iter (fun v -> st3 bi p v;
            ecb (fun () -> Printf.sprintf "value %d" v) (String.mapi (fun i c -> if i = p then Char.chr v else c) (base kl)) (pat "c01b" bk.bbs)) vs)
      done;
      for p = 0 to bk.bbs - 1 do
        case (fun () -> Printf.sprintf "%s base %d: all values of block byte %d" bk.bn bi p) (fun () ->
          trace ();
          let k = pat (Printf.sprintf "c01kb%d" bi) kl in
          let b = base bk.bbs in
          let all = String.concat "" (List.map (fun v -> String.mapi (fun i c -> if i = p then Char.chr v else c) b) (range 0 255)) in
          st3 (100 + bi) p kl;
          ecb (fun () -> "256 blocks") k all)
      done) [Ref.zeros; (fun n -> String.make n '\xff'); pat "c01base"];
    for v = 0 to (if bk.bn = "blowfish" then pick 200 2000 else pick 3000 30000) do
      case (fun () -> Printf.sprintf "%s key %d" bk.bn v) (fun () ->
        let k = pat (Printf.sprintf "c01k%d" v) kl and iv = pat (Printf.sprintf "c01iv%d" v) bk.bbs in
        let p = pat (Printf.sprintf "c01p%d" v) (v mod 67) in
        List.iter (fun mode ->
          trace (); tr 2;
          let mk dir = if mode = Cipher.ECB then bk.cipher ~mode ~pad:Padding.length k dir else bk.cipher ~mode ~pad:Padding.length ~iv k dir in
          eqf (fun () -> mode_name mode) p (transform_string (mk Cipher.Decrypt) (transform_string (mk Cipher.Encrypt) p)))
          [Cipher.ECB; CBC; CTR; CFB 8; OFB 8]; st2 v kl)
    done) bks;
  for kl = 4 to 56 do
    case (fun () -> Printf.sprintf "Blowfish, key of %d bytes" kl) (fun () ->
      trace (); st2 4 kl;
      for v = 0 to pick 3 40 do
        let k = pat (Printf.sprintf "c01bf%d" v) kl and p = pat "c01q" (40 + v) in
        tr 2;
        eq "round trip" p (transform_string (Cipher.blowfish ~pad:Padding._8000 k Cipher.Decrypt) (transform_string (Cipher.blowfish ~pad:Padding._8000 k Cipher.Encrypt) p))
      done)
  done;
  for kl = 1 to 256 do
    case (fun () -> Printf.sprintf "ARCfour, key of %d bytes" kl) (fun () ->
      trace (); st2 5 kl;
      let k = pat "c01rc" kl and p = pat "c01q" 700 in
      tr 4;
      let c = transform_string (Cipher.arcfour k Cipher.Encrypt) p in
      eq "round trip" p (transform_string (Cipher.arcfour k Cipher.Decrypt) c);
      eq "round trip by pieces" p (by_pieces (Cipher.arcfour k Cipher.Decrypt) 37 c);
      if c = p then fail "the ciphertext is the message")
  done)
