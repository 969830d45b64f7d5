-------------------------------- MODULE Sha --------------------------------
(* Incremental SHA-256 (C22).  State: for each context the bytes it has been fed since it was last
   initialised, as runs <<value, mebibytes, bytes>>, or NONE after it gave its digest.
   A 32-bit word is a pair <<high, low>> of 16-bit halves. *)
EXTENDS Common
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

Ctxs == 0 .. 3
NONE == [live |-> FALSE, run |-> <<>>]
FRESH == [live |-> TRUE, run |-> <<>>]
Init0 == [i \in Ctxs |-> NONE]

M16 == 65535
W(h, l) == <<h, l>>
XorW(a, b) == W(a[1] ^^ b[1], a[2] ^^ b[2])
AndW(a, b) == W(a[1] & b[1], a[2] & b[2])
NotW(a) == W(M16 - a[1], M16 - a[2])
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow(n) == P2[n + 1]
(* rotation and shift to the right by 0 < n < 16 *)
Rot1(a, n) == W((a[1] \div Pow(n)) + (a[2] % Pow(n)) * Pow(16 - n), (a[2] \div Pow(n)) + (a[1] % Pow(n)) * Pow(16 - n))
Rot(a, n) == IF n = 16 THEN W(a[2], a[1]) ELSE IF n > 16 THEN Rot1(W(a[2], a[1]), n - 16) ELSE Rot1(a, n)
Shr(a, n) == W(a[1] \div Pow(n), (a[2] \div Pow(n)) + (a[1] % Pow(n)) * Pow(16 - n))
Norm(h, l) == W((h + l \div 65536) % 65536, l % 65536)
Add2(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Add4(a, b, c, d) == Norm(a[1] + b[1] + c[1] + d[1], a[2] + b[2] + c[2] + d[2])
Add5(a, b, c, d, e) == Norm(a[1] + b[1] + c[1] + d[1] + e[1], a[2] + b[2] + c[2] + d[2] + e[2])

K == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>, <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>, <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
H0 == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>

Ep0(x) == XorW(XorW(Rot(x, 2), Rot(x, 13)), Rot(x, 22))
Ep1(x) == XorW(XorW(Rot(x, 6), Rot(x, 11)), Rot(x, 25))
Sg0(x) == XorW(XorW(Rot(x, 7), Rot(x, 18)), Shr(x, 3))
Sg1(x) == XorW(XorW(Rot(x, 17), Rot(x, 19)), Shr(x, 10))
Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
Maj(x, y, z) == XorW(XorW(AndW(x, y), AndW(x, z)), AndW(y, z))

(* message schedule of a block of 64 bytes *)
Words(b) == [i \in 1 .. 16 |-> W(b[4*i - 3] * 256 + b[4*i - 2], b[4*i - 1] * 256 + b[4*i])]
Schedule(b) == FoldLeftDomain(LAMBDA m, j : Append(m, Add4(Sg1(m[j + 14]), m[j + 9], Sg0(m[j + 1]), m[j])),
                              Words(b), [j \in 1 .. 48 |-> j])
Round(s, k, m) ==
  LET t1 == Add5(s[8], Ep1(s[5]), Ch(s[5], s[6], s[7]), k, m)
      t2 == Add2(Ep0(s[1]), Maj(s[1], s[2], s[3]))
  IN <<Add2(t1, t2), s[1], s[2], s[3], Add2(s[4], t1), s[5], s[6], s[7]>>
Compress(h, b) ==
  LET m == Schedule(b)
      r == FoldLeftDomain(LAMBDA s, i : Round(s, K[i], m[i]), h, K)
  IN [i \in 1 .. 8 |-> Add2(h[i], r[i])]

(* the padded message: the bytes, a bit one, zeroes, and the number of bits in eight bytes *)
LenBytes(n) == <<0, 0, 0, n \div 536870912, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n % 32) * 8>>
Zeros(n) == [i \in 1 .. n |-> 0]
Padded(m) == LET n == Len(m) z == (119 - (n % 64)) % 64 IN m \o <<128>> \o Zeros(z) \o LenBytes(n)
Blocks(h, p) == FoldLeftDomain(LAMBDA a, i : Compress(a, SubSeq(p, 64*i - 63, 64*i)), h, [i \in 1 .. Len(p) \div 64 |-> i])
Bytes(h) == FoldLeftDomain(LAMBDA a, i : a \o <<h[i][1] \div 256, h[i][1] % 256, h[i][2] \div 256, h[i][2] % 256>>,
                           <<>>, [i \in 1 .. 8 |-> i])
Sha256(m) == Bytes(Blocks(H0, Padded(m)))

(* ---- contexts ---- *)
Rep(b, n) == [i \in 1 .. n |-> b]
Expand(run) == FoldLeftDomain(LAMBDA a, i : a \o (IF run[i].k = "bytes" THEN run[i].d ELSE Rep(run[i].b, run[i].n)),
                              <<>>, run)
Huge(run) == \E i \in 1 .. Len(run) : run[i].k = "fill" /\ run[i].mb > 0
(* digests of long runs of one byte value, computed beforehand with another implementation *)
LongDigests == <<[b |-> 0, mb |-> 512, n |-> 0, d |-> <<154, 204, 168, 232, 194, 34, 1, 21, 83, 137, 246, 90, 187, 246, 188, 151, 35, 237, 199, 56, 78, 173, 128, 80, 56, 57, 244, 157, 204, 86, 215, 103>>],
  [b |-> 97, mb |-> 512, n |-> 5, d |-> <<42, 75, 78, 215, 232, 253, 117, 249, 129, 158, 6, 166, 77, 239, 42, 171, 129, 184, 179, 233, 180, 161, 169, 149, 130, 75, 206, 72, 248, 151, 246, 44>>],
  [b |-> 255, mb |-> 1, n |-> 63, d |-> <<7, 135, 137, 125, 41, 3, 97, 239, 162, 202, 101, 98, 22, 31, 103, 215, 208, 0, 13, 245, 78, 192, 106, 30, 96, 132, 162, 112, 245, 43, 194, 167>>],
  [b |-> 7, mb |-> 3, n |-> 0, d |-> <<250, 220, 139, 118, 251, 158, 36, 71, 193, 24, 232, 182, 18, 203, 18, 128, 144, 66, 65, 33, 79, 107, 155, 91, 112, 16, 244, 69, 188, 195, 209, 11>>],
  [b |-> 1, mb |-> 4096, n |-> 70, d |-> <<204, 238, 15, 79, 96, 122, 174, 97, 65, 192, 202, 229, 252, 48, 2, 228, 117, 32, 254, 47, 112, 3, 5, 30, 45, 247, 231, 120, 211, 56, 198, 182>>]>>
DigestOf(run) ==
  IF ~Huge(run) THEN Sha256(Expand(run))
  ELSE LET I == {i \in 1 .. Len(LongDigests) :
                   /\ Len(run) = 1 /\ LongDigests[i].b = run[1].b
                   /\ LongDigests[i].mb = run[1].mb /\ LongDigests[i].n = run[1].n}
       IN LongDigests[CHOOSE i \in I : TRUE].d

Feed(st, i, piece) == IF st[i].live THEN {[st EXCEPT ![i].run = Append(@, piece)]} ELSE {}
Do(st, c) ==
  CASE c.op = "ShInit" -> {[st EXCEPT ![c.i] = FRESH]}
    [] c.op = "ShUpdate" -> Feed(st, c.i, [k |-> "bytes", d |-> c.d])
    [] c.op = "ShFill" -> Feed(st, c.i, [k |-> "fill", b |-> c.b, mb |-> c.n, n |-> c.nlow])
    [] c.op = "ShFinal" -> IF st[c.i].live THEN {[st EXCEPT ![c.i] = NONE]} ELSE {}
    [] OTHER -> {}
Step(st, e) ==
  IF ~(LedgerOk(e) /\ e.raw = 0 /\ e.calls = 0) THEN {}
  ELSE IF e.op = "ShUpdate" /\ ~e.src THEN {}
  ELSE IF e.op = "ShFinal" /\ (~st[e.i].live \/ e.out # DigestOf(st[e.i].run)) THEN {}
  ELSE Do(st, e)
Ops == {"ShInit", "ShUpdate", "ShFill", "ShFinal"}
=============================================================================
