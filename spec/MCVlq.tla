-------------------------------- MODULE MCVlq --------------------------------
(* The encoder as the code runs it: a loop over a number held as bits, one
   output character per turn. Checked for every v of the domain: the loop's
   output is the specified encoding, the decoder automaton reads it back, and
   no shorter text or other sign would do.                                   *)
EXTENDS Vlq, TLC, Json

CONSTANTS Span,      \* every v with |v| <= Span
          Reach      \* ... and within Reach of every power of two

Near == UNION {{s * (2^k - 1) + s + d : d \in -Reach..Reach} : s \in {1, -1}, k \in 0..30}
Edge == {MaxInt - d : d \in 0..Reach} \cup {MinInt + d : d \in 0..Reach}

Values == (-Span..Span) \cup Near \cup Edge

VARIABLES v,      \* the number being encoded
          rest,   \* bits not yet written, least significant first
          out,    \* characters written
          done

vars == <<v, rest, out, done>>

Init == /\ v \in Values
        /\ rest = SignedBits(v) /\ out = <<>> /\ done = FALSE

(* one turn of the loop: five bits out, continuation if anything is left *)
NonZero(b) == \E i \in DOMAIN b : b[i] # 0
Turn == /\ ~done
        /\ LET left == SubSeq(rest, 6, Len(rest))
           IN  /\ out' = Append(out, EncChar(Group(rest, 0), NonZero(left)))
               /\ rest' = left
               /\ done' = ~NonZero(left)
        /\ UNCHANGED v
Next == Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>done
Specified == done => out = Encode(v)
RoundTrip == done => (v = MinInt \/ Decode(out) = Some(v))
(* minimal: the last digit is not zero unless it is the only one *)
Minimal   == done => (Len(out) = 1 \/ DigitOf[Last(out)] # 0)
InAlphabet == \A i \in DOMAIN out : out[i] \in {Base64[d] : d \in 0..63}
Continuation == \A i \in DOMAIN out : (DigitOf[out[i]] >= 32) = (i < Len(out) \/ ~done)

(* the alphabet is a bijection, and DigitOf its inverse *)
ASSUME \A a, b \in 0..63 : Base64[a] = Base64[b] => a = b
ASSUME \A d \in 0..63 : DigitOf[Base64[d]] = d
ASSUME Cardinality({c \in 0..255 : DigitOf[c] # -1}) = 64
ASSUME PrintT("TAB " \o ToJson(EncTable))
=============================================================================
