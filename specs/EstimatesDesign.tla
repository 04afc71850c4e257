--------------------------- MODULE EstimatesDesign ---------------------------
(* Why the laws hold: a description grows and is rewritten; the estimate is the most likely assignment of
   small integers under increasing, concave likelihoods and a prior that treats the items alike.       *)
EXTENDS Estimates, TLC
CONSTANTS N, MaxLabels, Rewrites
VARIABLES cmp, rat, n, base
vars == <<cmp, rat, n, base>>
Items == 1..N
Val == -2..2
(* log probability (1/1000) that the better one of a comparison wins by d, and of a rating at a value *)
L(d) == <<-10360, -6608, -3783, -1841, -693, -173, -23, -1, 0>>[d + 5]
R(r, f) == CASE r = 1 -> <<-23, -173, -693, -1841, -3783>>[f + 3]
             [] r = 2 -> <<-1900, -900, -400, -900, -1900>>[f + 3]
             [] r = 3 -> <<-3783, -1841, -693, -173, -23>>[f + 3]
Desc(c, r) == <<[kind |-> "pref", X |-> [i \in Items |-> i], L |-> c]>> \o
              [k \in DOMAIN r |-> [kind |-> "ord", X |-> <<N * k + r[k][1]>>, L |-> <<r[k][2]>>]]
Loc == [p \in 1..(N * (MaxLabels + 1)) |-> ((p - 1) % N) + 1]
T == Tokens(Desc(cmp, rat))
P == [i \in Items |-> i]
Sum(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + s[i] IN S[Len(s)]
Post(f, toks) == Sum([k \in DOMAIN toks |-> LET t == toks[k] IN IF t[1] = "pref" THEN L(f[Loc[t[2]]] - f[Loc[t[3]]]) ELSE R(t[3], f[Loc[t[2]]])])
                 - Sum([i \in Items |-> 500 * f[i] * f[i]])
Best(toks) == LET all == [Items -> Val]
                  post == [f \in all |-> Post(f, toks)]
                  vals == {post[f] : f \in all}
                  top == CHOOSE x \in vals : \A y \in vals : y <= x
              IN {f \in all : post[f] = top}
Init == cmp = <<>> /\ rat = <<>> /\ n = 0 /\ base = <<>>
Grow == n = 0 /\ Len(cmp) + Len(rat) < MaxLabels
Compare == /\ Grow /\ rat = <<>>
           /\ \E u, v \in 0..(N - 1) : u # v /\ cmp' = Append(cmp, <<-1, u, v>>)
           /\ UNCHANGED <<rat, n, base>>
Rate == /\ Grow
        /\ \E i \in Items, r \in 1..3 : rat' = Append(rat, <<i, r>>)
        /\ UNCHANGED <<cmp, n, base>>
Fix == n = 0 /\ n' = 1 /\ base' = T /\ UNCHANGED <<cmp, rat>>
Rewriting == n > 0 /\ n <= Rewrites /\ n' = n + 1 /\ UNCHANGED base
Turn == /\ Rewriting /\ \E k \in DOMAIN cmp : cmp' = [cmp EXCEPT ![k] = <<-cmp[k][1], cmp[k][3], cmp[k][2]>>]
        /\ UNCHANGED rat
Exchange == /\ Rewriting /\ \E k \in 1..(Len(cmp) - 1) : cmp' = [cmp EXCEPT ![k] = cmp[k + 1], ![k + 1] = cmp[k]]
            /\ UNCHANGED rat
Later == /\ Rewriting /\ \E k \in 1..(Len(rat) - 1) : rat' = [rat EXCEPT ![k] = rat[k + 1], ![k + 1] = rat[k]]
         /\ UNCHANGED cmp
Next == Compare \/ Rate \/ Fix \/ Turn \/ Exchange \/ Later
Spec == Init /\ [][Next]_vars
Where(toks) == [k \in DOMAIN toks |-> [toks[k] EXCEPT ![2] = Loc[toks[k][2]]]]
SameMeaning == n > 0 => SameBag(Where(T), Where(base)) /\ (n > Rewrites => Best(T) = Best(base))
Negated == rat = <<>> /\ n = 1 => Best([k \in DOMAIN T |-> Opposite(T[k])]) = {[i \in Items |-> -f[i]] : f \in Best(T)}
(* an item with better evidence is never estimated lower, and items alike change places freely *)
Law == n = 1 => \A i, j \in Items :
         /\ Better(T, P, Loc, Items, i, j) => \A f \in Best(T) : f[i] >= f[j]
         /\ Alike(T, P, Loc, Items, i, j) => \A f \in Best(T) : [f EXCEPT ![i] = f[j], ![j] = f[i]] \in Best(T)
Strict == n = 1 /\ Len(T) > 0 => \A i, j \in Items : ~(Better(T, P, Loc, Items, i, j) /\ Better(T, P, Loc, Items, j, i))
=============================================================================
