-------------------------------- MODULE Bits --------------------------------
(* Numbers as little-endian bit sequences.  TLC integers are 32-bit, so every value of the           *)
(* implementation (up to 64 bits, signed or not) is carried as bytes or bits, never as an integer.    *)
EXTENDS Integers, Sequences

Bit(bytes, i) == (bytes[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2      \* i counts from 0

FieldBits(bytes, off, w) == [k \in 1..w |-> Bit(bytes, off + k - 1)]

\* The abstract number stored in a field: its 64-bit two's complement representation.
\* A one-bit field is a flag: it reads as 0 or 1 whatever its type (documented deviation).
Extend(fb, signed) ==
    [k \in 1..64 |-> IF k <= Len(fb) THEN fb[k]
                     ELSE IF signed /\ Len(fb) > 1 THEN fb[Len(fb)] ELSE 0]

Bits64(bytes) == [k \in 1..64 |-> Bit(bytes, k - 1)]

ByteOf(bits, i) == LET b == 8 * (i - 1) IN
    bits[b+1] + 2*bits[b+2] + 4*bits[b+3] + 8*bits[b+4] + 16*bits[b+5] + 32*bits[b+6] + 64*bits[b+7] + 128*bits[b+8]

Bytes8(bits) == [i \in 1..8 |-> ByteOf(bits, i)]

\* value (8 bytes) is representable in a field of w bits
Representable(v, w, signed) == Extend(SubSeq(Bits64(v), 1, w), signed) = Bits64(v)

\* memory after storing the low w bits of v at bit offset off
StoreBit(mem, off, w, vb, i) == IF i >= off /\ i < off + w THEN vb[i - off + 1] ELSE Bit(mem, i)
StoreByte(mem, off, w, vb, n) == LET b == 8 * (n - 1) IN
    IF b + 8 <= off \/ b >= off + w THEN mem[n]
    ELSE StoreBit(mem,off,w,vb,b) + 2*StoreBit(mem,off,w,vb,b+1) + 4*StoreBit(mem,off,w,vb,b+2)
       + 8*StoreBit(mem,off,w,vb,b+3) + 16*StoreBit(mem,off,w,vb,b+4) + 32*StoreBit(mem,off,w,vb,b+5)
       + 64*StoreBit(mem,off,w,vb,b+6) + 128*StoreBit(mem,off,w,vb,b+7)
Store(mem, off, w, v) == LET vb == Bits64(v) IN [n \in 1..Len(mem) |-> StoreByte(mem, off, w, vb, n)]

\* little-endian integer < 2^31 from / to bytes
RECURSIVE LEVal(_)
LEVal(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + 256 * LEVal(Tail(bs))
LE8(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0, 0, 0, 0 >>
=============================================================================
