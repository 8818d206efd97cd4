-------------------------------- MODULE Utf8 --------------------------------
EXTENDS Num
(* code point -> bytes *)
Utf8Of(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
(* length of the well-formed sequence starting at i, 0 if ill-formed *)
Utf8Len(s, i) ==
  LET c(j) == IF i + j <= Len(s) THEN s[i + j] ELSE 0
      cont(j) == c(j) >= 128 /\ c(j) <= 191
      b == s[i]
  IN IF b < 128 THEN 1
     ELSE IF b >= 194 /\ b <= 223 /\ cont(1) THEN 2
     ELSE IF b >= 224 /\ b <= 239 /\ cont(1) /\ cont(2)
             /\ (b = 224 => c(1) >= 160) /\ (b = 237 => c(1) <= 159) THEN 3
     ELSE IF b >= 240 /\ b <= 244 /\ cont(1) /\ cont(2) /\ cont(3)
             /\ (b = 240 => c(1) >= 144) /\ (b = 244 => c(1) <= 143) THEN 4
     ELSE 0
RECURSIVE Utf8OkFrom(_, _)
Utf8OkFrom(s, i) == IF i > Len(s) THEN TRUE
                    ELSE LET n == Utf8Len(s, i) IN n > 0 /\ Utf8OkFrom(s, i + n)
Utf8Ok(s) == (\A i \in 1..Len(s) : s[i] < 128) \/ Utf8OkFrom(s, 1)
=============================================================================
