(* C18 RSA, C19 Diffie-Hellman, C20 Paillier, C30 big numbers and xor *)
open E
open Objs
open Cryptokit
let uniq = ()
let range a b = if b < a then [] else List.init (b - a + 1) (fun i -> a + i)
(* big-endian strings *)
let num s = let v = ref Z.zero in String.iter (fun c -> v := Z.add (Z.shift_left !v 8) (Z.of_int (Char.code c))) s; !v
let be len z = String.init len (fun i -> Char.chr (Z.to_int (Z.logand (Z.shift_right z (8 * (len - 1 - i))) (Z.of_int 255))))
let bytes_for z = max 1 ((Z.numbits z + 7) / 8)
let zi = Z.of_int
let zs = Z.to_string
(* square and multiply, independent of GMP's modular exponentiation *)
let powmod a b m =
  let r = ref (Z.rem Z.one m) and a = ref (Z.rem a m) in
  for i = 0 to Z.numbits b - 1 do
    if Z.testbit b i then r := Z.rem (Z.mul !r !a) m;
    a := Z.rem (Z.mul !a !a) m
  done; !r
let is_prime n =
  if n < 2 then false else
  let rec go d = d * d > n || (n mod d <> 0 && go (d + 1)) in go 2
let prime z = if Z.numbits z < 31 then is_prime (Z.to_int z) else Z.probab_prime z 30 > 0
let primes a b = List.filter is_prime (range a b)
let eqz what a b = if not (Z.equal a b) then fail "%s: expected %s, got %s" what (zs a) (zs b)

(* a generator whose first bytes are given, then a fixed pseudo-random stream *)
let scripted ?(label = "rest") first : Random.rng =
  let pos = ref 0 and blk = ref "" and n = ref 0 in
  let lf = String.length first in
  object
    method random_bytes b o l =
      for i = o to o + l - 1 do
        if !pos < lf then Bytes.set b i first.[!pos]
        else begin
          if !blk = "" then (blk := Digest.string (Printf.sprintf "%s%d" label !n); incr n);
          Bytes.set b i !blk.[0]; blk := Ref.drop !blk 1
        end;
        incr pos
      done
    method wipe = ()
  end

(* ---------------- C18 ---------------- *)
let rsa_key ?(slack = 0) p q e =
  let zp = zi p and zq = zi q in
  let n = Z.mul zp zq in
  let phi = Z.mul (Z.pred zp) (Z.pred zq) in
  let d = Z.invert (zi e) phi in
  let size = Z.numbits n + slack in
  let w = (size + 7) / 8 in
  let s z = be w z in
  ({ RSA.size; n = s n; d = s d; p = s zp; q = s zq; dp = s (Z.rem d (Z.pred zp)); dq = s (Z.rem d (Z.pred zq));
     qinv = s (Z.invert zq zp) } : RSA.private_key),
  ({ RSA.size; n = s n; e = s (zi e) } : RSA.public_key)
let gcd a b = let rec g a b = if b = 0 then a else g b (a mod b) in g a b
let check_rsa (priv : RSA.private_key) (pub : RSA.public_key) msgs =
  let n = num pub.n and e = num pub.e and d = num priv.d in
  let w = (pub.size + 7) / 8 in
  List.iter (fun (m, enc) ->
    (* enc: string encoding of m *)
    tr 7; trace ();
    let c = RSA.encrypt pub enc in
    eqf (fun () -> Printf.sprintf "encrypt %s" (zs m)) (be w (powmod m e n)) c;
    eqf (fun () -> Printf.sprintf "unwrap_signature %s" (zs m)) c (RSA.unwrap_signature pub enc);
    let s = RSA.sign priv enc in
    eqf (fun () -> Printf.sprintf "sign %s" (zs m)) (be w (powmod m d n)) s;
    eqf (fun () -> Printf.sprintf "decrypt %s" (zs m)) s (RSA.decrypt priv enc);
    eqf (fun () -> Printf.sprintf "sign_CRT %s" (zs m)) s (RSA.sign_CRT priv enc);
    eqf (fun () -> Printf.sprintf "decrypt_CRT %s" (zs m)) s (RSA.decrypt_CRT priv enc);
    eqf (fun () -> Printf.sprintf "decrypt of encrypt %s" (zs m)) (be w m) (RSA.decrypt priv c);
    eqf (fun () -> Printf.sprintf "decrypt_CRT of encrypt %s" (zs m)) (be w m) (RSA.decrypt_CRT priv c);
    eqf (fun () -> Printf.sprintf "unwrap of sign %s" (zs m)) (be w m) (RSA.unwrap_signature pub s)) msgs
let too_long (priv : RSA.private_key) (pub : RSA.public_key) m =
  List.iter (fun (nm, f) ->
    tr 1;
    match f m with
    | r -> fail "%s accepts %s, not smaller than the modulus" nm (show m)
    | exception Error Message_too_long -> ())
    ["encrypt", RSA.encrypt pub; "unwrap_signature", RSA.unwrap_signature pub; "decrypt", RSA.decrypt priv; "sign", RSA.sign priv;
     "decrypt_CRT", RSA.decrypt_CRT priv; "sign_CRT", RSA.sign_CRT priv]

let () = section "c18_small_keys" (fun () ->
  let ps = primes 3 (pick 31 61) in
  List.iter (fun p -> List.iter (fun q ->
    if p <> q then
      case (fun () -> Printf.sprintf "RSA p=%d q=%d: all exponents, all messages" p q) (fun () ->
        let n = p * q and phi = (p - 1) * (q - 1) in
        let es = List.filter (fun e -> gcd e phi = 1) (range 1 (pick 40 200)) in
        let es = if quick () then (match es with a :: b :: c :: _ -> [a; b; c; List.nth es (List.length es - 1)] | l -> l) else es in
        List.iter (fun e ->
          List.iter (fun slack ->
          let (priv, pub) = rsa_key ~slack p q e in
          let w = (pub.size + 7) / 8 in
          for m = 0 to n - 1 do st3 n e m done;
          check_rsa priv pub (List.concat_map (fun m -> (zi m, be w (zi m)) :: (if m mod 7 = 0 then [zi m, "\000\000\000" ^ be w (zi m); zi m, (if m = 0 then "" else be (bytes_for (zi m)) (zi m))] else [])) (range 0 (n - 1)));
          for m = n to n + 20 do too_long priv pub (be 4 (zi m)) done;
          too_long priv pub ("\001" ^ be w (zi 0) ^ "\000")) [0; 5; 17]) (if n > 400 then [List.hd es; List.nth es (List.length es - 1)] else es))) ps) ps)

(* primes near word boundaries: CRT arithmetic around the limits of machine words *)
let () = section "c18_word_sizes" (fun () ->
  List.iter (fun bits ->
    List.iter (fun k ->
      case (fun () -> Printf.sprintf "RSA with primes next to 2^%d, #%d" bits k) (fun () ->
        (* p above 2^bits, q below it *)
        let p = Z.nextprime (Z.add (Z.shift_left Z.one bits) (zi (k * 40))) in
        let rec below z = if prime z then z else below (Z.pred z) in
        let q = below (Z.sub (Z.shift_left Z.one bits) (zi (1 + k * 7))) in
        List.iter (fun (p, q) ->
          let n = Z.mul p q and phi = Z.mul (Z.pred p) (Z.pred q) in
          let e = let rec f e = if Z.equal (Z.gcd e phi) Z.one then e else f (Z.add e (zi 2)) in f (zi 65537) in
          let d = Z.invert e phi in
          let size = Z.numbits n in
          let w = (size + 7) / 8 in
          let s = be w in
          let priv : RSA.private_key = { size; n = s n; d = s d; p = s p; q = s q; dp = s (Z.rem d (Z.pred p)); dq = s (Z.rem d (Z.pred q)); qinv = s (Z.invert q p) } in
          let pub : RSA.public_key = { size; n = s n; e = be (max w (bytes_for e)) e } in
          let ms = [Z.zero; Z.one; zi 2; p; q; Z.mul q (zi 3); Z.pred p; Z.succ q; Z.pred n; Z.sub n p; Z.sub n q; Z.div n (zi 2)]
            @ List.map (fun i -> Z.rem (num (pat (string_of_int i) w)) n) (range 0 (pick 8 40)) in
          st_s (bits, k, zs p);
          check_rsa priv pub (List.map (fun m -> (m, be w m)) ms);
          too_long priv pub (be w n); if Z.numbits (Z.succ n) <= 8 * w then too_long priv pub (be w (Z.succ n)); too_long priv pub (String.make (w + 1) '\255'))
          [p, q; q, p])) (range 0 (pick 3 20))) [8; 15; 16; 31; 32; 33; 62; 63; 64; 65; 95; 128; 160; 256])

let check_new_key numbits e (priv : RSA.private_key) (pub : RSA.public_key) =
  let n = num priv.n and p = num priv.p and q = num priv.q and d = num priv.d in
  let chk c m = if not c then fail "new_key %d: %s (p=%s q=%s)" numbits m (zs p) (zs q) in
  chk (priv.size = numbits && pub.size = numbits) "size";
  chk (priv.n = pub.n) "n differs"; chk (String.length priv.n = (numbits + 7) / 8) "length of n";
  chk (Z.equal n (Z.mul p q)) "n <> p.q";
  chk (not (Z.equal p q)) "p = q";
  chk (prime p) "p is not prime"; chk (prime q) "q is not prime";
  chk (Z.numbits p = numbits / 2) "size of p"; chk (Z.numbits q = numbits / 2) "size of q";
  (match e with Some e -> chk (Z.equal (num pub.e) (zi e)) "e is not the requested one" | None -> ());
  let phi = Z.mul (Z.pred p) (Z.pred q) in
  chk (Z.equal (Z.rem (Z.mul (num pub.e) d) phi) (Z.rem Z.one phi)) "e.d <> 1 mod (p-1)(q-1)";
  chk (Z.equal (num priv.dp) (Z.rem d (Z.pred p))) "dp"; chk (Z.equal (num priv.dq) (Z.rem d (Z.pred q))) "dq";
  chk (Z.equal (Z.rem (Z.mul (num priv.qinv) q) p) Z.one) "qinv";
  let w = (numbits + 7) / 8 in
  check_rsa priv pub (List.map (fun m -> (m, be w m)) [Z.zero; Z.one; p; Z.pred n; Z.rem (num (pat "rm" w)) n])
let () = section "c18_new_key" (fun () ->
  (* 32-bit keys: every value of the first entropy bytes *)
  for hi = 0 to 255 do
    case (fun () -> Printf.sprintf "new_key 32, first entropy bytes *,%d" hi) (fun () ->
      for lo = 0 to 255 do
        if not (quick ()) || lo land 3 = hi land 3 then begin
          let first = String.init 2 (fun i -> Char.chr (if i = 0 then lo else hi)) in
          let es = [| Some 3; Some 65537; Some 9; None; Some 17; Some 15; Some 21; Some 25; Some 5; Some 35; Some 105; Some 255; Some 7; Some 33; Some 1155; Some 65535 |] in
          let e = es.((lo / 4 + hi) land 15) in
          let (priv, pub) = RSA.new_key ~rng:(scripted ~label:(string_of_int (lo * 256 + hi)) first) ?e 32 in
          trace (); tr 1; st3 lo hi 1;
          check_new_key 32 e priv pub
        end
      done)
  done;
  (* all even sizes, several entropies *)
  for k = 16 to pick 140 300 do
    case (fun () -> Printf.sprintf "new_key %d" (2 * k)) (fun () ->
      List.iter (fun e ->
        for s = 0 to pick 3 10 do
          let first = match s with 0 -> "" | 1 -> String.make ((k + 7) / 8) '\255' | 2 -> String.make ((k + 7) / 8) '\000' | _ -> pat (string_of_int s) 8 in
          trace (); tr 1; st3 k s (match e with None -> 0 | Some e -> e);
          let (priv, pub) = RSA.new_key ~rng:(scripted ~label:(Printf.sprintf "%d/%d" k s) first) ?e (2 * k) in
          check_new_key (2 * k) e priv pub
        done) [None; Some 3; Some 5; Some 9; Some 15; Some 17; Some 35; Some 105; Some 257; Some 65535; Some 65537])
  done;
  List.iter (fun bits ->
    case (fun () -> Printf.sprintf "new_key %d" bits) (fun () ->
      List.iter (fun e -> trace (); tr 1; st2 bits 7;
        let (priv, pub) = RSA.new_key ~rng:(scripted "") ?e bits in check_new_key bits e priv pub) [None; Some 65537])) (pick [512; 1024; 1026] [512; 1022; 1024; 2048; 3072; 4096]);
  case (fun () -> "new_key with the default generator") (fun () ->
    for _ = 1 to 5 do let (priv, pub) = RSA.new_key 256 in trace (); tr 1; check_new_key 256 None priv pub done))

(* ---------------- C19 ---------------- *)
let () = section "c19_small_groups" (fun () ->
  List.iter (fun p ->
    case (fun () -> Printf.sprintf "DH p=%d: all generators, private secrets from all entropy bytes" p) (fun () ->
      List.iter (fun w ->
      let ps = be w (zi p) in
      List.iter (fun g ->
        List.iter (fun privlen ->
          let params = { DH.p = ps; g = be w (zi g); privlen } in
          let secret b = DH.private_secret ~rng:(scripted (String.make ((privlen + 7) / 8) (Char.chr b))) params in
          let step = if quick () then 23 else 5 in
          let dlog m = (* exponents below 2^privlen giving m *)
            let rec go a v = if a >= 1 lsl privlen then None else if Z.equal v m then Some a else go (a + 1) (Z.rem (Z.mul v (zi g)) (zi p)) in
            go 0 (Z.rem Z.one (zi p)) in
          let msgs = List.filter_map (fun b -> if b mod step = 0 || b = 255 then Some (b, DH.message params (secret b)) else None) (range 0 255) in
          List.iter (fun (b, m) ->
            if String.length m <> w then fail "message of %d bytes for p of %d" (String.length m) w;
            if dlog (num m) = None then fail "g=%d: message %s is not a power g^a with a < 2^%d" g (show m) privlen) msgs;
          List.iter (fun (b1, m1) -> List.iter (fun (b2, m2) ->
            trace (); tr 4; st_s (p, g, privlen, b1, b2);
            let s1 = DH.shared_secret params (secret b1) m2 and s2 = DH.shared_secret params (secret b2) m1 in
            eq "the parties disagree" s1 s2;
            let a = Option.get (dlog (num m1)) in
            eqf (fun () -> Printf.sprintf "g=%d shared secret g^(ab)" g) (be w (powmod (num m2) (zi a) (zi p))) s1) msgs) msgs)
          (pick [3; 8] [1; 2; 3; 5; 8; 9; 12])) (List.filter (fun g -> g <= 4 || (g * 7) mod 5 = 1 || g >= p - 2) (range 2 (p - 1)))) [bytes_for (zi p); 4]))
    (primes 5 (pick 30 120) @ [251; 257; 509; 1021]))

let () = section "c19_params" (fun () ->
  for nb = 32 to pick 190 400 do
    case (fun () -> Printf.sprintf "DH.new_parameters %d" nb) (fun () ->
      List.iter (fun privlen ->
        let pl = Option.value ~default:160 privlen in
        for s = 0 to pick 1 5 do
          trace (); tr 1; st3 nb pl s;
          match DH.new_parameters ~rng:(scripted (if s = 1 then String.make 8 '\255' else if s = 2 then Ref.zeros 100 else "") ~label:(Printf.sprintf "dh%d/%d" nb s)) ?privlen nb with
          | pr ->
            if nb <= pl then fail "privlen %d accepted with %d bits" pl nb;
            let p = num pr.p and g = num pr.g in
            if Z.numbits p <> nb then fail "prime of %d bits instead of %d" (Z.numbits p) nb;
            if not (prime p) then fail "%s is not prime" (zs p);
            if Z.compare g (zi 2) < 0 || Z.compare g p >= 0 then fail "generator %s out of range" (zs g);
            eqi "privlen" pl pr.privlen;
            eqi "length of p" ((nb + 7) / 8) (String.length pr.p);
            (* a full exchange *)
            let mk l = DH.private_secret ~rng:(scripted ~label:l "") pr in
            let a = mk "a" and b = mk "b" in
            let ma = DH.message pr a and mb = DH.message pr b in
            eqi "message length" (String.length pr.p) (String.length ma);
            let sa = DH.shared_secret pr a mb in
            let sb = DH.shared_secret pr b ma in
            eq "agreement" sa sb;
            eqi "secret length" (String.length pr.p) (String.length sa);
            if pl >= 100 then begin
              (* destroyed: the secret no longer has any influence *)
              match DH.message pr a with
              | z -> eq "private secret not destroyed by shared_secret" (be (String.length pr.p) Z.one) z
              | exception Invalid_argument _ -> ()
            end
          | exception Error Wrong_key_size -> if nb > pl then fail "refused"
        done) [Some 10; Some 31; Some 64; Some 100; None])
  done;
  List.iter (fun nb ->
    case (fun () -> Printf.sprintf "DH %d bits" nb) (fun () ->
      let pr = DH.new_parameters ~rng:(scripted ~label:"big" "") nb in
      trace (); tr 5; st2 nb 1;
      let a = DH.private_secret ~rng:(scripted ~label:"x" "") pr and b = DH.private_secret pr in
      let ma = DH.message pr a and mb = DH.message pr b in
      let s1 = DH.shared_secret pr a mb in
      let s2 = DH.shared_secret pr b ma in
      eq "agreement" s1 s2)) (pick [256; 512] [256; 512; 1024; 2048]);
  (* fixed well-known group with known secrets *)
  case (fun () -> "2048-bit MODP group 14") (fun () ->
    let p = Ref.unhex (String.concat "" ["FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF"]) in
    let pr = { DH.p = p; g = "\002"; privlen = 256 } in
    List.iter (fun l ->
      trace (); tr 4;
      let a = DH.private_secret ~rng:(scripted ~label:("ma" ^ l) "") pr and b = DH.private_secret ~rng:(scripted ~label:("mb" ^ l) "") pr in
      let ma = DH.message pr a and mb = DH.message pr b in
      eqi "length" 256 (String.length ma);
      eq "agreement" (DH.shared_secret pr a mb) (DH.shared_secret pr b ma)) ["1"; "2"; "3"]))

let derive_model div sec n =
  let b = Buffer.create 100 in
  let c = ref 1 in
  while Buffer.length b < n do Buffer.add_string b (Ref.hash Ref.sha256 (div ^ sec ^ string_of_int !c)); incr c done;
  Buffer.sub b 0 n
let () = section "c19_derive" (fun () ->
  for n = 0 to pick 400 2000 do
    case (fun () -> Printf.sprintf "derive_key of %d bytes" n) (fun () ->
      List.iter (fun sec ->
        List.iter (fun div ->
          trace (); tr 1; st3 n (String.length sec) (match div with None -> -1 | Some d -> String.length d);
          let r = DH.derive_key ?diversification:div sec n in
          eq "derived key" (derive_model (Option.value ~default:"" div) sec n) r) [None; Some ""; Some "x"; Some (pat "div" 64)])
        [""; "s"; pat "sec" 32; pat "sec" 256])
  done)

(* ---------------- C20 ---------------- *)
let paillier p q =
  let zp = zi p and zq = zi q in
  let n = Z.mul zp zq in
  let n2 = Z.mul n n in
  let lam = Z.lcm (Z.pred zp) (Z.pred zq) in
  let mu = Z.invert lam n in
  let w = bytes_for n and w2 = bytes_for n2 in
  let size = Z.numbits n in
  ({ size; n = be w n; n2 = be w2 n2; p = be w zp; q = be w zq; lambda = be w lam; mu = be w mu } : Paillier.private_key),
  ({ size; n = be w n; n2 = be w2 n2; g = be w (Z.succ n) } : Paillier.public_key)
let () = section "c20_small_keys" (fun () ->
  let ps = primes 3 (pick 23 41) in
  List.iter (fun p -> List.iter (fun q ->
    if p < q && gcd (p * q) ((p - 1) * (q - 1)) = 1 then
      case (fun () -> Printf.sprintf "Paillier p=%d q=%d: all messages, all sums" p q) (fun () ->
        let n = p * q in
        let (priv, pub) = paillier p q in
        let w = bytes_for (zi n) in
        let enc k m = Paillier.encrypt ~rng:(scripted ~label:(string_of_int k) (String.make w (Char.chr (k * 37 land 255)))) pub m in
        let step = if n < 100 then 1 else n / 60 + 1 in
        let cs = List.map (fun m ->
          List.iter (fun k ->
            trace (); tr 2; st3 n m k;
            let c = enc k (be w (zi m)) in
            if Z.compare (num c) (num pub.n2) >= 0 then fail "ciphertext of %d not below n^2" m;
            eqz (Printf.sprintf "decrypt (encrypt %d)" m) (zi m) (num (Paillier.decrypt priv c))) (range 0 (pick 3 20));
          (* other encodings of the same number *)
          eqz "leading zeros" (zi m) (num (Paillier.decrypt priv (enc 1 (Ref.zeros 9 ^ be w (zi m)))));
          (m, enc (m + 1) (be w (zi m)))) (range 0 (n - 1)) in
        List.iter (fun (m1, c1) -> if m1 mod step = 0 || m1 = n - 1 then List.iter (fun (m2, c2) ->
          trace (); tr 1; st3 n m1 (1000 + m2);
          eqz (Printf.sprintf "decrypt (add %d %d)" m1 m2) (zi ((m1 + m2) mod n)) (num (Paillier.decrypt priv (Paillier.add pub c1 c2)))) cs) cs;
        (* sums of sums *)
        List.iter (fun (m1, c1) ->
          let c = ref c1 and m = ref m1 in
          for k = 1 to 5 do
            c := Paillier.add pub !c c1; m := (!m + m1) mod n;
            eqz "repeated addition" (zi !m) (num (Paillier.decrypt priv !c))
          done) cs)) ps) ps)
let check_paillier numbits (priv : Paillier.private_key) (pub : Paillier.public_key) =
  let n = num priv.n and p = num priv.p and q = num priv.q in
  let chk c m = if not c then fail "Paillier.new_key %d: %s (p=%s q=%s)" numbits m (zs p) (zs q) in
  chk (priv.size = numbits && pub.size = numbits) "size";
  chk (Z.equal n (Z.mul p q)) "n"; chk (Z.equal (num pub.n) n) "public n";
  chk (Z.equal (num priv.n2) (Z.mul n n) && Z.equal (num pub.n2) (Z.mul n n)) "n2";
  chk (prime p && prime q && not (Z.equal p q)) "primes";
  chk (Z.numbits p = numbits / 2 && Z.numbits q = numbits / 2) "size of the primes";
  chk (Z.equal (Z.gcd n (Z.mul (Z.pred p) (Z.pred q))) Z.one) "gcd (n, phi) <> 1";
  let lam = Z.lcm (Z.pred p) (Z.pred q) in
  chk (Z.equal (num priv.lambda) lam) "lambda";
  chk (Z.equal (Z.rem (Z.mul (num priv.mu) lam) n) Z.one) "mu";
  chk (Z.equal (num pub.g) (Z.succ n)) "g";
  let w = (numbits + 7) / 8 in
  let ms = [Z.zero; Z.one; zi 255; Z.pred n; p; Z.rem (num (pat "pm" w)) n] in
  let cs = List.map (fun m -> let c = Paillier.encrypt ~rng:(scripted ~label:(zs m) "") pub (be w m) in
    trace (); tr 2;
    eqz "decrypt" m (num (Paillier.decrypt priv c)); (m, c)) ms in
  List.iter (fun (m1, c1) -> List.iter (fun (m2, c2) ->
    tr 1; eqz "homomorphism" (Z.rem (Z.add m1 m2) n) (num (Paillier.decrypt priv (Paillier.add pub c1 c2)))) cs) cs
let () = section "c20_new_key" (fun () ->
  for hi = 0 to 255 do
    case (fun () -> Printf.sprintf "Paillier.new_key 32, first entropy bytes *,%d" hi) (fun () ->
      for lo = 0 to 255 do
        if lo land (pick 15 3) = hi land (pick 15 3) then begin
          let first = String.init 2 (fun i -> Char.chr (if i = 0 then lo else hi)) in
          st3 lo hi 2;
          let (priv, pub) = Paillier.new_key ~rng:(scripted ~label:(string_of_int (lo * 256 + hi)) first) 32 in
          check_paillier 32 priv pub
        end
      done)
  done;
  for k = 16 to pick 100 260 do
    case (fun () -> Printf.sprintf "Paillier.new_key %d" (2 * k)) (fun () ->
      for s = 0 to pick 2 6 do
        st2 k s;
        let first = match s with 0 -> "" | 1 -> String.make ((k + 7) / 8) '\255' | 2 -> String.make ((k + 7) / 8) '\000' | _ -> pat (string_of_int s) 8 in
        let (priv, pub) = Paillier.new_key ~rng:(scripted ~label:(Printf.sprintf "%d/%d" k s) first) (2 * k) in
        check_paillier (2 * k) priv pub
      done)
  done;
  List.iter (fun b -> case (fun () -> Printf.sprintf "Paillier.new_key %d, default generator" b) (fun () ->
    let (priv, pub) = Paillier.new_key b in check_paillier b priv pub)) (pick [64; 512] [64; 512; 1024; 2048]))

(* ---------------- C30 ---------------- *)
let () = section "c30_numbers" (fun () ->
  (* all small triples, in every width from 1 to 10 bytes *)
  let m = pick 20 40 in
  for c = 1 to m do
    case (fun () -> Printf.sprintf "all a < %d, b <= %d, modulo %d" c m c) (fun () ->
      List.iter (fun wc ->
        for a = 0 to c - 1 do for b = 0 to m do
          trace (); tr 2; st3 a b (c * 16 + wc);
          let wa = 1 + (a + b) mod 9 and wb = 1 + (a * 3 + b) mod 10 in
          let sa = be wa (zi a) and sb = be wb (zi b) and sc = be wc (zi c) in
          eqf (fun () -> Printf.sprintf "%d^%d mod %d (%d bytes)" a b c wc) (be wc (powmod (zi a) (zi b) (zi c))) (mod_power sa sb sc);
          eqf (fun () -> Printf.sprintf "%d*%d mod %d (%d bytes)" a b c wc) (be wc (zi (a * b mod c))) (mod_mult sa sb sc)
        done done) (range 1 (pick 10 18)))
  done;
  (* all widths with boundary values *)
  let vals w = List.sort_uniq compare [Ref.zeros w; be w Z.one; String.make w '\255'; "\x80" ^ Ref.zeros (w - 1); "\x7f" ^ String.make (w - 1) '\255';
    pat "v1" w; pat "v2" w; (if w > 1 then Ref.zeros (w / 2) ^ pat "v3" (w - w / 2) else "\003"); String.init w (fun i -> if i = w - 1 then '\254' else '\255')] in
  for wc = 1 to pick 34 70 do
    case (fun () -> Printf.sprintf "moduli of %d bytes" wc) (fun () ->
      List.iter (fun c ->
        let zc = num c in
        if Z.sign zc > 0 then
          List.iter (fun wa -> List.iter (fun a ->
            List.iter (fun b ->
              trace (); tr 2; st_s (wc, wa, c, a, b);
              if Z.compare (num a) zc < 0 then
                eqf (fun () -> Printf.sprintf "mod_power %s %s %s" (Ref.hex a) (Ref.hex b) (Ref.hex c)) (be wc (powmod (num a) (num b) zc)) (mod_power a b c);
              eqf (fun () -> Printf.sprintf "mod_mult %s %s %s" (Ref.hex a) (Ref.hex b) (Ref.hex c)) (be wc (Z.rem (Z.mul (num a) (num b)) zc)) (mod_mult a b c))
              (List.concat_map vals [1; 2; wa])) (vals wa)) (List.sort_uniq compare [1; wc; wc + 1; max 1 (wc - 1); 8; 9])) (vals wc))
  done;
  case (fun () -> "empty strings") (fun () ->
    trace (); tr 4;
    eq "0^0 mod 7" "\001" (mod_power "" "" "\007"); eq "0^3 mod 7" "\000" (mod_power "" "\003" "\007");
    eq "5^0 mod 7" "\001" (mod_power "\005" "" "\007"); eq "0*5 mod 7" "\000" (mod_mult "" "\005" "\007")))

let () = section "c30_xor" (fun () ->
  let total = pick 160 330 in
  List.iter (fun (nm, f) ->
    for so = 0 to pick 17 24 do
      for d = 0 to pick 17 24 do
        case (fun () -> Printf.sprintf "%s at offsets %d and %d, all lengths" nm so d) (fun () ->
          for len = 0 to total - max so d do
            List.iter (fun (s0, d0) ->
              let src = Bytes.of_string s0 and dst = Bytes.of_string d0 in
              trace (); tr 1; st3 so d len;
              f src so dst d len;
              let want = String.mapi (fun i c -> if i >= d && i < d + len then Char.chr (Char.code c lxor Char.code s0.[so + i - d]) else c) d0 in
              eqf (fun () -> Printf.sprintf "destination after %d bytes" len) want (Bytes.to_string dst);
              eqf (fun () -> "source") s0 (Bytes.to_string src))
              (if quick () then [pat "xs" total, pat "xd" total] else [pat "xs" total, pat "xd" total; String.make total '\255', pat "xd" total; pat "xs" total, String.make total '\000'])
          done;
          (* same buffer: identical or disjoint ranges *)
          for len = 0 to total - max so d do
            if so = d || so + len <= d || d + len <= so then begin
              let s0 = pat "xa" total in
              let b = Bytes.of_string s0 in
              trace (); tr 1;
              f b so b d len;
              eqf (fun () -> Printf.sprintf "same buffer, %d bytes" len)
                (String.mapi (fun i c -> if i >= d && i < d + len then Char.chr (Char.code c lxor Char.code s0.[so + i - d]) else c) s0) (Bytes.to_string b)
            end
          done)
      done
    done) ["xor_bytes", xor_bytes; "xor_string", (fun s so d dof l -> xor_string (Bytes.unsafe_to_string s) so d dof l)];
  for v = 0 to 255 do
    case (fun () -> Printf.sprintf "byte values %d xor *" v) (fun () ->
      let s = String.make 256 (Char.chr v) in
      let d = Bytes.init 256 Char.chr in
      trace (); tr 1;
      xor_string s 0 d 0 256;
      eq "values" (String.init 256 (fun i -> Char.chr (i lxor v))) (Bytes.to_string d))
  done;
  List.iter (fun n -> case (fun () -> Printf.sprintf "%d bytes" n) (fun () ->
    let s = pat "L" n and d0 = pat "M" n in
    let d = Bytes.of_string d0 in
    trace (); tr 1;
    xor_string s 1 d 3 (n - 5);
    eq "long" (Ref.take d0 3 ^ Ref.xor (String.sub s 1 (n - 5)) (String.sub d0 3 (n - 5)) ^ Ref.drop d0 (n - 2)) (Bytes.to_string d))) [1000; 4096; 65536; 1000003])
