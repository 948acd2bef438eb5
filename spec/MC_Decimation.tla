---------------------------- MODULE MC_Decimation ----------------------------
(* The set-up finds a factor level by level by repeated division; the        *)
(* decimator then thins the recording level by level until too little is     *)
(* left.  A recording is the sequence of its samples' times 0 .. n - 1.      *)
EXTENDS Decimation, TLC, Json
CONSTANTS Fs, Freqs, MaxSamples, NLevels, Per
VARIABLES d, freqs, n, least, pc, fs, factor, factors, data, levels
svars == <<d, freqs, n, least, pc, fs, factor, factors, data, levels>>

Top(l) == SetMax(Range(LevelFreqs(freqs, Per, l)))
Plan == {f \in [1 .. NLevels * Per -> Freqs] : TRUE}

SInit ==
    /\ d \in {2, 3, 4}
    /\ freqs \in Plan
    /\ \A l \in 1 .. NLevels - 1 : Top(l) >= Top(l + 1)
    /\ n \in {1, MaxSamples - 1, MaxSamples} /\ least \in {1, 3, 5}
    /\ pc = "plan" /\ fs = Fs /\ factor = 1 /\ factors = <<>>
    /\ data = [k \in 1 .. n |-> k - 1] /\ levels = <<>>

Level == Len(factors) + 1
\* one round of the search for a level's factor (Fs is divisible often enough)
Divide == /\ pc = "plan" /\ Level <= NLevels
          /\ 4 * Top(Level) * d <= fs
          /\ fs' = fs \div d /\ factor' = factor * d
          /\ UNCHANGED <<d, freqs, n, least, pc, factors, data, levels>>
Found == /\ pc = "plan" /\ Level <= NLevels
         /\ 4 * Top(Level) * d > fs
         /\ factors' = Append(factors, factor) /\ fs' = Fs /\ factor' = 1
         /\ pc' = IF Level = NLevels THEN "decimate" ELSE "plan"
         /\ UNCHANGED <<d, freqs, n, least, data, levels>>
\* every incremental-factor-th sample is kept
Thin(s, k) == [j \in 1 .. CeilDiv(Len(s), k) |-> s[(j - 1) * k + 1]]
Decimate ==
    LET new == Thin(data, Increments(factors)[Len(levels) + 1]) IN
    /\ pc = "decimate"
    /\ IF Len(new) < least THEN pc' = "done" /\ UNCHANGED <<data, levels>>
       ELSE /\ levels' = Append(levels, new) /\ data' = new
            /\ pc' = IF Len(levels) + 1 = NLevels THEN "done" ELSE pc
    /\ UNCHANGED <<d, freqs, n, least, fs, factor, factors>>
SNext == Divide \/ Found \/ Decimate
SSpec == SInit /\ [][SNext]_svars

FactorsAgree == \A l \in DOMAIN factors : factors[l] = Factor(Fs, d, Top(l))
\* the level's sampling frequency is at least four times its highest frequency, and no larger factor does
Resolvable == \A l \in DOMAIN factors :
    /\ factors[l] = 1 \/ Fs >= 4 * Top(l) * factors[l]
    /\ Fs < 4 * Top(l) * factors[l] * d
Divides == \A l \in 2 .. Len(factors) : factors[l] % factors[l - 1] = 0
Products == pc # "plan" => RunningProduct(Increments(factors)) = factors
\* level l holds the samples at whole multiples of its cumulative factor, from the first on
OnGrid == \A l \in DOMAIN levels :
    levels[l] = [j \in 1 .. CeilDiv(n, factors[l]) |-> (j - 1) * factors[l]]
LengthsAgree == pc = "done" =>
    LET lens == Lengths(n, Increments(factors)) IN
    /\ Len(levels) = KeptLevels(lens, least)
    /\ \A l \in DOMAIN levels : Len(levels[l]) = lens[l] /\ lens[l] >= least
    /\ Len(levels) < NLevels => lens[Len(levels) + 1] < least
Emit == (pc = "done") => PrintT("@@CASE " \o ToJson([fs |-> Fs, d |-> d, per |-> Per, freqs |-> freqs, n |-> n, least |-> least]))
=============================================================================
