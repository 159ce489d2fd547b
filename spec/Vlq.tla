-------------------------------- MODULE Vlq ---------------------------------
(* Base64 VLQ as used by Source Map v3, as an encoder and a decoder automaton.
   Numbers are handled as bit sequences (least significant bit first) so that
   the full 32-bit range is inside the domain; TLC integers are 32 bits.     *)
EXTENDS Common

(* A-Z a-z 0-9 + /  as character codes *)
Base64 == [d \in 0..63 |->
             IF d < 26 THEN 65 + d
             ELSE IF d < 52 THEN 97 + (d - 26)
             ELSE IF d < 62 THEN 48 + (d - 52)
             ELSE IF d = 62 THEN 43 ELSE 47]

DigitOf == [c \in 0..255 |->
              IF c \in 65..90 THEN c - 65
              ELSE IF c \in 97..122 THEN c - 97 + 26
              ELSE IF c \in 48..57 THEN c - 48 + 52
              ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1]

(* base64 digit function: defined exactly on 0..63 *)
Base64Char(n) == IF n \in 0..63 THEN Some(Base64[n]) ELSE None

------------------------------------------------------------------------------
(* magnitude bits of v, least significant first, no leading zeros *)
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o BitsOf(n \div 2)

MagnitudeBits(v) ==
    IF v >= 0 THEN BitsOf(v)
    ELSE IF v = MinInt THEN [i \in 1..32 |-> IF i = 32 THEN 1 ELSE 0]
    ELSE BitsOf(-v)

(* sign in the lowest bit *)
SignedBits(v) == <<IF v < 0 THEN 1 ELSE 0>> \o MagnitudeBits(v)

Bit(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0

(* the k-th (from 0) five-bit group *)
Group(bits, k) == Bit(bits, 5*k+1) + 2*Bit(bits, 5*k+2) + 4*Bit(bits, 5*k+3)
                  + 8*Bit(bits, 5*k+4) + 16*Bit(bits, 5*k+5)

Groups(bits) == LET n == (Len(bits) + 4) \div 5
                IN  [k \in 1..(IF n = 0 THEN 1 ELSE n) |-> Group(bits, k-1)]

(* Encoder automaton output: one character per group, continuation on all
   but the last.                                                           *)
EncChar(group, more) == Base64[group + (IF more THEN 32 ELSE 0)]

(* the automaton as a table: output for each group, last / not last *)
EncTable == [g \in 1..32 |-> <<EncChar(g - 1, FALSE), EncChar(g - 1, TRUE)>>]

EncodeBits(bits) == LET g == Groups(bits)
                    IN  [k \in DOMAIN g |-> EncChar(g[k], k < Len(g))]

Encode(v) == EncodeBits(SignedBits(v))

------------------------------------------------------------------------------
(* Decoder automaton: state [st |-> "go" | "end" | "bad", j (digits read),
   neg, mag]. Magnitudes above MaxInt are reported as "bad" (out of domain). *)
DecInit == [st |-> "go", j |-> 0, neg |-> FALSE, mag |-> 0]

Weight == [j \in 1..6 |-> 2^(5*j - 1)]

DecStep(d, c) ==
    LET dig == IF c \in 0..255 THEN DigitOf[c] ELSE -1
        v   == dig % 32
        nst == IF dig >= 32 THEN "go" ELSE "end"
    IN  IF dig = -1 THEN [d EXCEPT !.st = "bad"]
        ELSE IF d.j = 0
             THEN [st |-> nst, j |-> 1, neg |-> v % 2 = 1, mag |-> v \div 2]
        ELSE IF d.j > 6 \/ (d.j = 6 /\ v > 3) THEN [d EXCEPT !.st = "bad"]
        ELSE [st |-> nst, j |-> d.j + 1, neg |-> d.neg, mag |-> d.mag + v * Weight[d.j]]

(* decode one complete encoding; None if it is not exactly one *)
Decode(chars) ==
    LET d == FoldLeft(LAMBDA a, c : IF a.st = "go" THEN DecStep(a, c) ELSE [a EXCEPT !.st = "bad"],
                      DecInit, chars)
    IN  IF d.st = "end" THEN Some(IF d.neg THEN -d.mag ELSE d.mag) ELSE None
=============================================================================
