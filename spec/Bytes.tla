------------------------------- MODULE Bytes -------------------------------
(* Byte sequences, 64-bit magnitudes, two's complement, decimal text, UTF-8, hex digits.                          *)
(* TLC integers are 32-bit, so a 64-bit number is kept as a sign and a magnitude of 8 big-endian bytes.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Byte == 0..255

Rep(x, n) == [i \in 1..n |-> x]
Tail2(s, p) == SubSeq(s, p, Len(s))                 \* the suffix starting at position p
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)   \* flatten a sequence of sequences
\* does the word w stand at position p of s
At(s, p, w) == p + Len(w) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(w) - 1) = w

-----------------------------------------------------------------------------
(* magnitudes: 8 big-endian bytes *)
Zero8 == <<0,0,0,0,0,0,0,0>>
Pad8(bs) == IF Len(bs) >= 8 THEN bs ELSE Rep(0, 8 - Len(bs)) \o bs
Mag(n) == <<0,0,0,0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>  \* n in 0..2^31-1
IsZero8(m) == m = Zero8
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i > Len(a) THEN TRUE
                    ELSE IF a[i] < b[i] THEN TRUE
                    ELSE IF a[i] > b[i] THEN FALSE
                    ELSE LeqFrom(a, b, i + 1)
Leq(a, b) == LeqFrom(a, b, 1)                       \* same length, unsigned comparison

Max8(nbytes)  == Rep(0, 8 - nbytes) \o Rep(255, nbytes)                 \* 2^(8n) - 1
Top8(nbytes)  == Rep(0, 8 - nbytes) \o <<128>> \o Rep(0, nbytes - 1)    \* 2^(8n-1)
TopM8(nbytes) == Rep(0, 8 - nbytes) \o <<127>> \o Rep(255, nbytes - 1)  \* 2^(8n-1) - 1

Low(m, n) == SubSeq(m, 9 - n, 8)                    \* the n low-order bytes
Small(m) == Low(m,4)[1] < 128 /\ SubSeq(m,1,4) = <<0,0,0,0>>            \* fits a TLC integer
ToNat(m) == ((m[5] * 256 + m[6]) * 256 + m[7]) * 256 + m[8]             \* for Small(m)

\* two's complement negation of a byte sequence (any length)
RECURSIVE Inc(_)
Inc(bs) == IF bs = <<>> THEN <<>>
           ELSE IF Last(bs) = 255 THEN Append(Inc(Front(bs)), 0)
           ELSE [bs EXCEPT ![Len(bs)] = @ + 1]
NegBytes(bs) == Inc([i \in 1..Len(bs) |-> 255 - bs[i]])
\* n-byte two's complement of sign/magnitude
TwosComp(sg, m, n) == IF sg = 1 THEN NegBytes(Low(m, n)) ELSE Low(m, n)
\* sign/magnitude (9 bytes: sign, mag) of an unsigned / signed big-endian field
FromUnsigned(bs) == <<0>> \o Pad8(bs)
FromSigned(bs) == IF bs[1] >= 128 THEN <<1>> \o Pad8(NegBytes(bs)) ELSE <<0>> \o Pad8(bs)
SgOf(z) == z[1]
MagOf(z) == SubSeq(z, 2, 9)
NormInt(z) == IF IsZero8(MagOf(z)) THEN <<0>> \o Zero8 ELSE z
IntZ(n) == IF n < 0 THEN <<1>> \o Mag(-n) ELSE <<0>> \o Mag(n)

IntKinds == {"i8","i16","i32","i64","u8","u16","u32","u64"}
Signed(k) == k \in {"i8","i16","i32","i64"}
Width(k) == CASE k \in {"i8","u8"} -> 1 [] k \in {"i16","u16"} -> 2 [] k \in {"i32","u32"} -> 4 [] OTHER -> 8
\* is the number z representable in kind k
InRange(k, z) == LET m == MagOf(z) w == Width(k) IN
    IF Signed(k) THEN (IF SgOf(z) = 1 THEN Leq(m, Top8(w)) ELSE Leq(m, TopM8(w)))
                 ELSE (SgOf(z) = 0 \/ IsZero8(m)) /\ Leq(m, Max8(w))

-----------------------------------------------------------------------------
(* decimal text *)
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
\* long division of 4 16-bit limbs by 10000
Limbs(m) == <<m[1]*256+m[2], m[3]*256+m[4], m[5]*256+m[6], m[7]*256+m[8]>>
DivStep(l) == LET q1 == l[1] \div 10000   r1 == l[1] % 10000
                  a2 == r1 * 65536 + l[2] q2 == a2 \div 10000 r2 == a2 % 10000
                  a3 == r2 * 65536 + l[3] q3 == a3 \div 10000 r3 == a3 % 10000
                  a4 == r3 * 65536 + l[4] q4 == a4 \div 10000 r4 == a4 % 10000
              IN [q |-> <<q1,q2,q3,q4>>, r |-> r4]
Dig4(n) == <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE LimbDigits(_)
LimbDigits(l) == IF l[1] = 0 /\ l[2] = 0 /\ l[3] = 0 /\ l[4] < 10000 THEN NatDigits(l[4])
                 ELSE LET d == DivStep(l) IN LimbDigits(d.q) \o Dig4(d.r)
DecDigits(m) == IF Small(m) THEN NatDigits(ToNat(m)) ELSE LimbDigits(Limbs(m))
DecText(z) == (IF SgOf(z) = 1 THEN <<45>> ELSE <<>>) \o DecDigits(MagOf(z))

IsDigit(c) == c \in 48..57
\* l * 10 + d over 4 16-bit limbs; <<carry, l1, l2, l3, l4>>
MulAdd(l, d) == LET a4 == l[4]*10 + d             a3 == l[3]*10 + a4 \div 65536
                    a2 == l[2]*10 + a3 \div 65536 a1 == l[1]*10 + a2 \div 65536
                IN <<a1 \div 65536, a1 % 65536, a2 % 65536, a3 % 65536, a4 % 65536>>
RECURSIVE AccDigits(_, _)
\* magnitude of a non-empty digit sequence, <<>> when it does not fit 64 bits
AccDigits(ds, l) == IF ds = <<>> THEN <<l[1] \div 256, l[1] % 256, l[2] \div 256, l[2] % 256,
                                        l[3] \div 256, l[3] % 256, l[4] \div 256, l[4] % 256>>
                    ELSE LET x == MulAdd(l, ds[1] - 48)
                         IN IF x[1] # 0 THEN <<>> ELSE AccDigits(Tail(ds), SubSeq(x, 2, 5))
RECURSIVE NatAcc(_, _)
NatAcc(ds, n) == IF ds = <<>> THEN n ELSE NatAcc(Tail(ds), n * 10 + (ds[1] - 48))
DigitsMag(ds) == IF Len(ds) <= 9 THEN Mag(NatAcc(ds, 0)) ELSE AccDigits(ds, <<0,0,0,0>>)
RECURSIVE RunDigits(_, _)
RunDigits(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN RunDigits(s, p + 1) ELSE p   \* first non-digit position

-----------------------------------------------------------------------------
(* UTF-8 *)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
\* length of the valid UTF-8 character at position i, 0 if there is none
Utf8Len(s, i) ==
    LET a == s[i] b == IF i < Len(s) THEN s[i+1] ELSE 0 IN
    CASE a < 128 -> 1
      [] a \in 194..223 -> IF Cont(s, i+1) THEN 2 ELSE 0
      [] a = 224 -> IF b \in 160..191 /\ Cont(s, i+2) THEN 3 ELSE 0
      [] a \in 225..236 -> IF Cont(s, i+1) /\ Cont(s, i+2) THEN 3 ELSE 0
      [] a = 237 -> IF b \in 128..159 /\ Cont(s, i+2) THEN 3 ELSE 0
      [] a \in 238..239 -> IF Cont(s, i+1) /\ Cont(s, i+2) THEN 3 ELSE 0
      [] a = 240 -> IF b \in 144..191 /\ Cont(s, i+2) /\ Cont(s, i+3) THEN 4 ELSE 0
      [] a \in 241..243 -> IF Cont(s, i+1) /\ Cont(s, i+2) /\ Cont(s, i+3) THEN 4 ELSE 0
      [] a = 244 -> IF b \in 128..143 /\ Cont(s, i+2) /\ Cont(s, i+3) THEN 4 ELSE 0
      [] OTHER -> 0
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == IF i > Len(s) THEN TRUE
                  ELSE IF i + 64 <= Len(s) /\ \A j \in i..(i + 64) : s[j] < 128 THEN Utf8From(s, i + 64)
                  ELSE LET n == Utf8Len(s, i) IN IF n = 0 THEN FALSE ELSE Utf8From(s, i + n)
IsUtf8(s) == (\A i \in 1..Len(s) : s[i] < 128) \/ Utf8From(s, 1)
\* exactly one character
IsOneChar(s) == s # <<>> /\ Utf8Len(s, 1) = Len(s)
Utf8Enc(cp) == IF cp < 128 THEN <<cp>>
               ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
               ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
               ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

-----------------------------------------------------------------------------
(* hex digits *)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
HexDig(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex2(b) == <<HexDig(b \div 16), HexDig(b % 16)>>
=============================================================================
