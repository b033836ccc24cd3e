-------------------------------- MODULE Hash ---------------------------------
(* MD5 (RFC 1321) and SHA-1 (FIPS 180) as functions of a byte sequence.  A word is <<low, high>> 16-bit halves. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET l == a[1] + b[1] IN <<l % 65536, (a[2] + b[2] + (l \div 65536)) % 65536>>
Pow2 == [k \in 0..16 |-> 2^k]
RotS(a, n) == <<((a[1] * Pow2[n]) % 65536) + (a[2] \div Pow2[16 - n]), ((a[2] * Pow2[n]) % 65536) + (a[1] \div Pow2[16 - n])>>     \* 0 < n < 16
Rot(a, n) == IF n > 16 THEN RotS(<<a[2], a[1]>>, n - 16) ELSE IF n = 16 THEN <<a[2], a[1]>> ELSE RotS(a, n)
(* padding: 0x80, zeros to 56 modulo 64, then the length in bits, little- or big-endian (messages below 2^24 bytes) *)
LenBytes(n) == <<(8 * n) % 256, ((8 * n) \div 256) % 256, ((8 * n) \div 65536) % 256, (8 * n) \div 16777216, 0, 0, 0, 0>>
Padded(m, big) == LET n == Len(m) IN m \o <<128>> \o [k \in 1..((119 - (n % 64)) % 64) |-> 0] \o (IF big THEN Reverse(LenBytes(n)) ELSE LenBytes(n))
WordLE(p, i) == <<p[i + 1] + 256 * p[i + 2], p[i + 3] + 256 * p[i + 4]>>
WordBE(p, i) == <<p[i + 4] + 256 * p[i + 3], p[i + 2] + 256 * p[i + 1]>>
BytesLE(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>
BytesBE(w) == Reverse(BytesLE(w))
MdT == <<<<42104, 55146>>, <<46934, 59591>>, <<28891, 9248>>, <<52974, 49597>>, <<4015, 62844>>, <<50730, 18311>>, <<17939, 43056>>, <<38145, 64838>>, <<39128, 27008>>, <<63407, 35652>>, <<23473, 65535>>, <<55230, 35164>>, <<4386, 27536>>, <<29075, 64920>>, <<17294, 42617>>, <<2081, 18868>>, <<9570, 63006>>, <<45888, 49216>>, <<23121, 9822>>, <<51114, 59830>>, <<4189, 54831>>, <<5203, 580>>, <<59009, 55457>>, <<64456, 59347>>, <<52710, 8673>>, <<2006, 49975>>, <<3463, 62677>>, <<5357, 17754>>, <<59653, 43491>>, <<41976, 64751>>, <<729, 26479>>, <<19594, 36138>>, <<14658, 65530>>, <<63105, 34673>>, <<24866, 28061>>, <<14348, 64997>>, <<59972, 42174>>, <<53161, 19422>>, <<19296, 63163>>, <<48240, 48831>>, <<32454, 10395>>, <<10234, 60065>>, <<12421, 54511>>, <<7429, 1160>>, <<53305, 55764>>, <<39397, 59099>>, <<31992, 8098>>, <<22117, 50348>>, <<8772, 62505>>, <<65431, 17194>>, <<9127, 43924>>, <<41017, 64659>>, <<22979, 25947>>, <<52370, 36620>>, <<62589, 65519>>, <<24017, 34180>>, <<32335, 28584>>, <<59104, 65068>>, <<17172, 41729>>, <<4513, 19976>>, <<32386, 63315>>, <<62005, 48442>>, <<53947, 10967>>, <<54161, 60294>>>>
ShK == <<<<31129, 23170>>, <<60321, 28377>>, <<48348, 36635>>, <<49622, 51810>>>>
MdInit == <<<<8961, 26437>>, <<43913, 61389>>, <<56574, 39098>>, <<21622, 4146>>>>
ShInit == <<<<8961, 26437>>, <<43913, 61389>>, <<56574, 39098>>, <<21622, 4146>>, <<57840, 50130>>>>
Steps64 == [i \in 1..64 |-> i - 1]
Steps80 == [i \in 1..80 |-> i - 1]
MdShift == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
MdStep(x, s, i) ==                                        \* s = <<a, b, c, d>>
  LET b == s[2] c == s[3] d == s[4] r == i \div 16
      f == CASE r = 0 -> WOr(WAnd(b, c), WAnd(WNot(b), d)) [] r = 1 -> WOr(WAnd(b, d), WAnd(c, WNot(d)))
             [] r = 2 -> WXor(WXor(b, c), d) [] r = 3 -> WXor(c, WOr(b, WNot(d)))
      k == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] r = 3 -> (7 * i) % 16
      t == WAdd(WAdd(s[1], f), WAdd(x[k + 1], MdT[i + 1]))
  IN <<d, WAdd(b, Rot(t, MdShift[r + 1][(i % 4) + 1])), b, c>>
MdBlock(h, p, o) == LET x == [k \in 1..16 |-> WordLE(p, o + 4 * (k - 1))]
                        s == FoldLeft(LAMBDA acc, i : MdStep(x, acc, i), h, Steps64)
                    IN <<WAdd(h[1], s[1]), WAdd(h[2], s[2]), WAdd(h[3], s[3]), WAdd(h[4], s[4])>>
ShStep(w, s, i) ==
  LET b == s[2] c == s[3] d == s[4] r == i \div 20
      f == CASE r = 0 -> WOr(WAnd(b, c), WAnd(WNot(b), d)) [] r = 2 -> WOr(WOr(WAnd(b, c), WAnd(b, d)), WAnd(c, d)) [] OTHER -> WXor(WXor(b, c), d)
      t == WAdd(WAdd(WAdd(Rot(s[1], 5), f), WAdd(s[5], ShK[r + 1])), w[i + 1])
  IN <<t, s[1], Rot(b, 30), c, d>>
ShSchedule(x) == FoldLeft(LAMBDA w, i : IF i < 16 THEN w ELSE Append(w, Rot(WXor(WXor(w[i - 2], w[i - 7]), WXor(w[i - 13], w[i - 15])), 1)), x, Steps80)
ShBlock(h, p, o) == LET w == ShSchedule([k \in 1..16 |-> WordBE(p, o + 4 * (k - 1))])
                        s == FoldLeft(LAMBDA acc, i : ShStep(w, acc, i), h, Steps80)
                    IN <<WAdd(h[1], s[1]), WAdd(h[2], s[2]), WAdd(h[3], s[3]), WAdd(h[4], s[4]), WAdd(h[5], s[5])>>
MD5(m) == LET p == Padded(m, FALSE)
              h == FoldLeft(LAMBDA acc, k : MdBlock(acc, p, 64 * k), MdInit, [k \in 1..(Len(p) \div 64) |-> k - 1])
          IN BytesLE(h[1]) \o BytesLE(h[2]) \o BytesLE(h[3]) \o BytesLE(h[4])
SHA1(m) == LET p == Padded(m, TRUE)
               h == FoldLeft(LAMBDA acc, k : ShBlock(acc, p, 64 * k), ShInit, [k \in 1..(Len(p) \div 64) |-> k - 1])
           IN BytesBE(h[1]) \o BytesBE(h[2]) \o BytesBE(h[3]) \o BytesBE(h[4]) \o BytesBE(h[5])
(* published and independently computed digests *)
Vectors == <<
  <<<<>>, <<212, 29, 140, 217, 143, 0, 178, 4, 233, 128, 9, 152, 236, 248, 66, 126>>, <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9>>>>,
  <<<<97>>, <<12, 193, 117, 185, 192, 241, 182, 168, 49, 195, 153, 226, 105, 119, 38, 97>>, <<134, 247, 228, 55, 250, 165, 167, 252, 225, 93, 29, 220, 185, 234, 234, 234, 55, 118, 103, 184>>>>,
  <<<<97, 98, 99>>, <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>, <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>>>,
  <<<<109, 101, 115, 115, 97, 103, 101, 32, 100, 105, 103, 101, 115, 116>>, <<249, 107, 105, 125, 124, 183, 147, 141, 82, 90, 47, 49, 170, 241, 97, 208>>, <<193, 34, 82, 206, 218, 139, 232, 153, 77, 95, 160, 41, 10, 71, 35, 28, 29, 22, 170, 227>>>>,
  <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54>>, <<105, 18, 238, 101, 255, 242, 217, 249, 206, 37, 8, 205, 223, 139, 205, 160>>, <<138, 226, 212, 103, 41, 207, 230, 143, 249, 39, 175, 94, 236, 156, 125, 27, 102, 214, 90, 194>>>>,
  <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55>>, <<81, 253, 209, 172, 218, 114, 64, 93, 253, 250, 3, 252, 184, 88, 150, 215>>, <<99, 110, 46, 198, 152, 218, 201, 3, 73, 142, 100, 139, 210, 243, 175, 100, 29, 60, 136, 203>>>>,
  <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62>>, <<72, 166, 41, 82, 33, 144, 46, 142, 9, 56, 247, 115, 167, 24, 94, 114>>, <<109, 148, 45, 160, 196, 57, 43, 18, 53, 40, 242, 144, 92, 113, 58, 60, 226, 131, 100, 189>>>>,
  <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>, <<178, 211, 245, 107, 193, 151, 253, 152, 93, 89, 101, 7, 155, 94, 113, 72>>, <<198, 19, 141, 81, 79, 250, 33, 53, 191, 206, 14, 208, 184, 250, 198, 86, 105, 145, 126, 199>>>>,
  <<<<100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164>>, <<77, 60, 158, 108, 172, 142, 39, 74, 4, 76, 52, 139, 237, 48, 189, 187>>, <<28, 17, 201, 56, 65, 241, 48, 227, 205, 111, 13, 183, 84, 63, 104, 121, 202, 187, 149, 55>>>>,
  <<<<0, 7, 14, 21, 28, 35, 42, 49, 56, 63, 70, 77, 84, 91, 98, 105, 112, 119, 126, 133, 140, 147, 154, 161, 168, 175, 182, 189, 196, 203, 210, 217, 224, 231, 238, 245, 252, 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58>>, <<22, 64, 222, 234, 73, 235, 178, 88, 236, 110, 222, 24, 212, 178, 210, 215>>, <<180, 164, 230, 144, 96, 208, 177, 231, 232, 235, 191, 112, 65, 164, 33, 28, 99, 67, 139, 87>>>>,
  <<<<0, 251, 246, 241, 236, 231, 226, 221, 216, 211, 206, 201, 196, 191, 186, 181, 176, 171, 166, 161, 156, 151, 146, 141, 136, 131, 126, 121, 116, 111, 106, 101, 96, 91, 86, 81, 76, 71, 66, 61, 56, 51, 46, 41, 36, 31, 26, 21, 16, 11, 6, 1, 252, 247, 242, 237, 232, 227, 222, 217, 212, 207, 202, 197, 192, 187, 182, 177, 172, 167, 162, 157, 152, 147, 142, 137, 132, 127, 122, 117, 112, 107, 102, 97, 92, 87, 82, 77, 72, 67, 62, 57, 52, 47, 42, 37, 32, 27, 22, 17, 12, 7, 2, 253, 248, 243, 238, 233, 228, 223, 218, 213, 208, 203, 198, 193, 188, 183, 178, 173, 168, 163, 158, 153, 148, 143, 138, 133, 128, 123, 118, 113, 108, 103, 98, 93, 88, 83, 78, 73, 68, 63, 58, 53, 48, 43, 38, 33, 28, 23, 18, 13, 8, 3, 254, 249, 244, 239, 234, 229, 224, 219, 214, 209, 204, 199, 194, 189, 184, 179, 174, 169, 164, 159, 154, 149, 144, 139, 134, 129, 124, 119, 114, 109, 104, 99, 94, 89, 84, 79, 74, 69, 64, 59, 54, 49, 44, 39, 34, 29>>, <<30, 224, 191, 93, 158, 68, 255, 40, 10, 38, 32, 200, 8, 189, 56, 79>>, <<133, 206, 157, 59, 49, 241, 193, 139, 249, 32, 25, 111, 176, 38, 51, 212, 223, 50, 83, 84>>>>>>
VectorsOk == \A i \in 1..Len(Vectors) : MD5(Vectors[i][1]) = Vectors[i][2] /\ SHA1(Vectors[i][1]) = Vectors[i][3]
=============================================================================
