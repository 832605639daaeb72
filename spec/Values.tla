-------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Values of the system in TLC's 32-bit integers: a u32 is <<high 16 bits, *)
(* low 16 bits>>, a language set is its 16 bytes, most significant first,  *)
(* an f64 that is compared is its bits in four parts, and a fraction that  *)
(* is looked at is in millionths.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n

\* lexicographic order of sequences of one length
LexLt(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
LexLe(a, b) == a = b \/ LexLt(a, b)

-----------------------------------------------------------------------------
(* u32 as pairs *)
P(n) == <<n \div 65536, n % 65536>>
MaxU32 == <<65535, 65535>>
Le(a, b) == LexLe(a, b)
Lt(a, b) == LexLt(a, b)
Succ(a) == IF a[2] = 65535 THEN <<a[1] + 1, 0>> ELSE <<a[1], a[2] + 1>>
Add(a, b) == <<a[1] + b[1] + ((a[2] + b[2]) \div 65536), (a[2] + b[2]) % 65536>>
\* a - b for a >= b
Sub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
             ELSE <<a[1] - b[1] - 1, a[2] + 65536 - b[2]>>
\* the square of 0..65535, as a pair (the high part may exceed 16 bits in sums)
Square(n) == LET a == n \div 256
                 b == n % 256
                 t == ((2 * a * b) % 256) * 256 + b * b
             IN <<a * a + ((2 * a * b) \div 256) + (t \div 65536), t % 65536>>

-----------------------------------------------------------------------------
(* The z-order curve: bits of x in the even places, bits of y in the odd. *)
Spread == [n \in 0..255 |->
    (n % 2) + 4 * ((n \div 2) % 2) + 16 * ((n \div 4) % 2) + 64 * ((n \div 8) % 2)
    + 256 * ((n \div 16) % 2) + 1024 * ((n \div 32) % 2) + 4096 * ((n \div 64) % 2) + 16384 * (n \div 128)]
Z(x, y) == <<Spread[x \div 256] + 2 * Spread[y \div 256], Spread[x % 256] + 2 * Spread[y % 256]>>
ZDist(a, b) == IF Le(a, b) THEN Sub(b, a) ELSE Sub(a, b)

-----------------------------------------------------------------------------
(* Language sets *)
AllLangs == [i \in 1..16 |-> 255]
NoLang == [i \in 1..16 |-> 0]
Bits(b) == {i \in 0..7 : (b \div (2 ^ i)) % 2 = 1}
BitsOf == [b \in 0..255 |-> Bits(b)]
Meets(a, b) == \E i \in 1..16 : BitsOf[a[i]] \cap BitsOf[b[i]] # {}
\* does a stored key with language set `stored` match a query in `asked`?
Speaks(stored, asked) == stored = AllLangs \/ Meets(stored, asked)

-----------------------------------------------------------------------------
(* floor(sqrt(n)) *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2
                        IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46340)
RECURSIVE Root2(_, _, _)
Root2(p, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2
                         IN IF Le(Square(m), p) THEN Root2(p, m, hi) ELSE Root2(p, lo, m)
\* a hundred times the root of a pair, within half a percent (exact to 1/100 below 256)
Root100(p) == IF p[1] = 0 /\ p[2] < 200000 THEN ISqrt(p[2] * 10000) ELSE 100 * Root2(p, 0, 65536 * 2)

ToSet2(s) == {s[i] : i \in 1..Len(s)}
Count(s, Is(_)) == Cardinality({i \in 1..Len(s) : Is(s[i])})

\* the union of a sequence of sets (TLC takes quadratic time for UNION)
Join(sets) ==
    CHOOSE all \in {{seqs[q[1]][q[2]] : q \in {q \in (1..Len(seqs)) \X (1..Max({0} \cup {Len(seqs[k]) : k \in 1..Len(seqs)})) : q[2] <= Len(seqs[q[1]])}}
                    : seqs \in {[k \in 1..Len(sets) |-> SetToSeq(sets[k])]}} : Cardinality(all) >= 0
=============================================================================
