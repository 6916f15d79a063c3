-------------------------------- MODULE Ieee --------------------------------
(* IEEE 754 conversions used by decoders, at bit level.  A float is its big-endian bytes (4 or 8).               *)
(* Rounding is round to nearest, ties to even.                                                                    *)
EXTENDS Bytes

BitsOfByte(b) == <<(b \div 128) % 2, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2,
                   (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2>>
Bits(bs) == Cat([i \in 1..Len(bs) |-> BitsOfByte(bs[i])])
ByteOfBits(t) == t[1]*128 + t[2]*64 + t[3]*32 + t[4]*16 + t[5]*8 + t[6]*4 + t[7]*2 + t[8]
BytesOf(t) == [i \in 1..(Len(t) \div 8) |-> ByteOfBits(SubSeq(t, 8*i - 7, 8*i))]
RECURSIVE BitsNat(_)
BitsNat(t) == IF t = <<>> THEN 0 ELSE BitsNat(Front(t)) * 2 + Last(t)
RECURSIVE NatBits(_, _)
NatBits(n, w) == IF w = 0 THEN <<>> ELSE Append(NatBits(n \div 2, w - 1), n % 2)
RECURSIVE IncBits(_)
IncBits(t) == IF t = <<>> THEN <<>>
              ELSE IF Last(t) = 1 THEN Append(IncBits(Front(t)), 0)
              ELSE [t EXCEPT ![Len(t)] = 1]
AllZero(t) == \A i \in 1..Len(t) : t[i] = 0
\* must the kept bits be incremented when the bits of rest are dropped
RoundsUp(kept, rest) == rest # <<>> /\ rest[1] = 1
                        /\ (~AllZero(Tail(rest)) \/ (kept # <<>> /\ Last(kept) = 1))

IsNan32(b) == b[1] % 128 = 127 /\ b[2] >= 128 /\ (b[2] % 128 # 0 \/ b[3] # 0 \/ b[4] # 0)
IsNan64(b) == b[1] % 128 = 127 /\ b[2] >= 240 /\ (b[2] % 16 # 0 \/ \E i \in 3..8 : b[i] # 0)
IsFin32(b) == ~(b[1] % 128 = 127 /\ b[2] >= 128)
IsFin64(b) == ~(b[1] % 128 = 127 /\ b[2] >= 240)
IsZero32(b) == b[1] \in {0,128} /\ \A i \in 2..4 : b[i] = 0
IsZero64(b) == b[1] \in {0,128} /\ \A i \in 2..8 : b[i] = 0

\* number z (sign, magnitude) to a float with mb mantissa bits, eb exponent bits and the given bias
IntToFloat(z, mb, eb, bias) ==
    LET t == Bits(MagOf(z))
        s == <<SgOf(z)>>
    IN IF AllZero(t) THEN BytesOf(Rep(0, 1 + eb + mb))
       ELSE LET f == CHOOSE i \in 1..64 : t[i] = 1 /\ \A j \in 1..(i-1) : t[j] = 0
                sig == SubSeq(t, f + 1, 64) \o Rep(0, mb)       \* after the implicit one
                kept == NatBits(64 - f + bias, eb) \o SubSeq(sig, 1, mb)
                rest == SubSeq(sig, mb + 1, 64 - f)
            IN BytesOf(s \o (IF RoundsUp(kept, rest) THEN IncBits(kept) ELSE kept))
IntToF32(z) == IntToFloat(z, 23, 8, 127)
IntToF64(z) == IntToFloat(z, 52, 11, 1023)

\* f64 -> f32; NaN maps to <<>> (any NaN)
F64ToF32(b) ==
    LET t == Bits(b)
        s == <<t[1]>>
        e == BitsNat(SubSeq(t, 2, 12)) - 1023
        m == SubSeq(t, 13, 64)
    IN IF IsNan64(b) THEN <<>>
       ELSE IF e > 127 THEN BytesOf(s \o Rep(1, 8) \o Rep(0, 23))
       ELSE IF e >= -126
            THEN LET kept == NatBits(e + 127, 8) \o SubSeq(m, 1, 23)
                     rest == SubSeq(m, 24, 52)
                 IN BytesOf(s \o (IF RoundsUp(kept, rest) THEN IncBits(kept) ELSE kept))
       ELSE LET d == -97 - e                                     \* bits dropped from the 53-bit significand
            IN IF d > 53 THEN BytesOf(s \o Rep(0, 31))
               ELSE LET sig == <<1>> \o m
                        kept0 == SubSeq(sig, 1, 53 - d)
                        kept == Rep(0, 31 - Len(kept0)) \o kept0
                        rest == SubSeq(sig, 54 - d, 53)
                    IN BytesOf(s \o (IF RoundsUp(kept, rest) THEN IncBits(kept) ELSE kept))

\* f32 -> f64, exact; NaN maps to <<>>
F32ToF64(b) ==
    LET t == Bits(b)
        s == <<t[1]>>
        ef == BitsNat(SubSeq(t, 2, 9))
        m == SubSeq(t, 10, 32)
    IN IF IsNan32(b) THEN <<>>
       ELSE IF ef = 255 THEN BytesOf(s \o Rep(1, 11) \o Rep(0, 52))
       ELSE IF ef # 0 THEN BytesOf(s \o NatBits(ef - 127 + 1023, 11) \o m \o Rep(0, 29))
       ELSE IF AllZero(m) THEN BytesOf(s \o Rep(0, 63))
       ELSE LET f == CHOOSE i \in 1..23 : m[i] = 1 /\ \A j \in 1..(i-1) : m[j] = 0
                mm == SubSeq(m, f + 1, 23) \o Rep(0, 52)
            IN BytesOf(s \o NatBits(1023 - 126 - f, 11) \o SubSeq(mm, 1, 52))
=============================================================================
