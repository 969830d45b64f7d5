------------------------------- MODULE ProcMC -------------------------------
(* The executable name (C26): what Basename says of every name over a small alphabet, built up
   character by character, against what the documentation promises about it. *)
EXTENDS Alloc
CONSTANTS CHARS, LEN
VARIABLE name
Init == name = <<>>
Next == Len(name) < LEN /\ \E x \in CHARS : name' = Append(name, x)
Has(s, x) == \E i \in 1 .. Len(s) : s[i] = x
B == Basename(name)
Slashes(s) == \A i \in 1 .. Len(s) : s[i] = 47
NeverEmpty == B # <<>> /\ Len(B) <= Len(name) + 1
NoSlash == (B # <<47>>) => ~Has(B, 47)
OnlySlash == (B = <<47>>) = (name # <<>> /\ Slashes(name))
(* it occurs in the name, after a slash or at the start, and only slashes follow *)
Last == (name # <<>> /\ ~Slashes(name)) =>
  \E i \in 1 .. Len(name) : /\ (i = 1 \/ name[i - 1] = 47)
                            /\ i + Len(B) - 1 <= Len(name) /\ SubSeq(name, i, i + Len(B) - 1) = B
                            /\ Slashes(SubSeq(name, i + Len(B), Len(name)))
(* trailing slashes do not matter, leading directories neither *)
Stable == (name # <<>> /\ ~Slashes(name)) => /\ Basename(Append(name, 47)) = B
                                              /\ Basename(<<97, 47>> \o name) = B
                                              /\ Basename(B) = B
Spec == Init /\ [][Next]_name
=============================================================================
