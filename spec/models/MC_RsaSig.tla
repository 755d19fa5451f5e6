----------------------------- MODULE MC_RsaSig ------------------------------
(* Toy RSA signatures, exhaustively: for every message every candidate           *)
(* (including ones not smaller than the modulus and of the wrong length) is       *)
(* offered to the validation procedure the library uses.                          *)
(* v1.5: compare sig^e with the encoding; accepted is exactly the one signature.  *)
(* PSS: recover the salt by unmasking, rebuild the encoding, compare; accepted    *)
(* are exactly the encodings of the message under some salt.                      *)
EXTENDS Integers, TLC
CONSTANTS PP, QQ, EE, LEN              \* primes, public exponent; LEN: digits (base 16) of the modulus
N == PP * QQ
Phi == (PP - 1) * (QQ - 1)
D == CHOOSE d \in 1..Phi : (d * EE) % Phi = 1
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 1 THEN ((x % N) * Pow(x, e - 1)) % N ELSE LET h == Pow(x, e \div 2) IN (h * h) % N
Msgs == 0..3
(* v1.5: fixed padding around the message digest *)
Enc15(m) == 16 + 4 + m
(* PSS with 7 bits: two padding/separator bits 01, salt 2 bits, masked by H; H 2 bits; trailer 1 bit *)
H(m, s) == (3 * m + 2 * s + m * s + 1) % 4
Mgf(h) == (5 * h + 3) % 16
XorN(a, b) == LET bit(x, k) == (x \div 2^k) % 2
                  x(k) == (bit(a, k) + bit(b, k)) % 2
              IN  x(0) + 2 * x(1) + 4 * x(2) + 8 * x(3)
EncPss(m, s) == LET h == H(m, s) IN XorN(4 + s, Mgf(h)) * 8 + h * 2 + 1
VARIABLES scheme, m, len, sig, step, em, ans
vars == << scheme, m, len, sig, step, em, ans >>
Init == scheme \in {"v15", "pss"} /\ m \in Msgs /\ len \in {LEN - 1, LEN, LEN + 1} /\ sig \in 0..(16^len - 1)
        /\ step = "start" /\ em = 0 /\ ans = FALSE
Done(a) == ans' = a /\ step' = "done" /\ UNCHANGED << scheme, m, len, sig, em >>
Check == step = "start" /\ IF len # LEN \/ sig >= N THEN Done(FALSE)
                           ELSE em' = Pow(sig, EE) /\ step' = "em" /\ UNCHANGED << scheme, m, len, sig, ans >>
Decide == /\ step = "em"
          /\ IF scheme = "v15" THEN Done(em = Enc15(m))
             ELSE IF em >= 128 THEN Done(FALSE)                              \* does not fit the encoding length
             ELSE LET h == (em \div 2) % 4  s == XorN(em \div 8, Mgf(h)) % 4 IN Done(em = EncPss(m, s))
Next == Check \/ Decide
Spec == Init /\ [][Next]_vars
SignsOf == IF scheme = "v15" THEN {Pow(Enc15(m), D)} ELSE {Pow(EncPss(m, s), D) : s \in 0..3}
Exactly == step = "done" => (ans <=> (len = LEN /\ sig < N /\ sig \in SignsOf))
=============================================================================
