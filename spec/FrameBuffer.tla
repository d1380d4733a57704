---------------------------- MODULE FrameBuffer ----------------------------
(* flut::circular_frame_buffer: the last n frames of a growing sequence      *)
EXTENDS Header
VARIABLES n,        \* number of frames kept
          lab,      \* channel labels
          frames,   \* all retained frames, oldest first; each a sequence of values per channel
          count,    \* number of frames added so far
          res
vars == <<n, lab, frames, count, res>>
Ch == Len(lab)
Init == n = 0 /\ lab = <<>> /\ frames = <<>> /\ count = 0 /\ res = Ok
Oldest == count - Len(frames)                       \* number of the oldest retained frame
Kept(f) == f >= Oldest /\ f < count
Row(f)  == f - Oldest + 1
New(c, k) == n' = k /\ lab' = Unlabelled(c) /\ frames' = <<>> /\ count' = 0 /\ res' = Ok
\* a new frame, written completely
Add(row) == LET all == Append(frames, row) IN
    IF Len(row) # Ch \/ n = 0 THEN res' = None /\ UNCHANGED <<n, lab, frames, count>>
    ELSE /\ frames' = IF Len(all) > n THEN Tail(all) ELSE all
         /\ count' = count + 1 /\ res' = OkV(count') /\ UNCHANGED <<n, lab>>
Ok2(f, c) == Kept(f) /\ c < Ch
At(f, c)  == res' = (IF Ok2(f, c) THEN OkV(frames[Row(f)][c + 1]) ELSE Err) /\ UNCHANGED <<n, lab, frames, count>>
Read(f, c) == res' = (IF Ok2(f, c) THEN OkV(frames[Row(f)][c + 1]) ELSE None) /\ UNCHANGED <<n, lab, frames, count>>
Write(f, c, x, bad) == /\ UNCHANGED <<n, lab, count>>
                       /\ IF Ok2(f, c) THEN res' = Ok /\ frames' = [frames EXCEPT ![Row(f)][c + 1] = x]
                                       ELSE res' = bad /\ UNCHANGED frames
\* value at frame f plus pos quarters towards the next frame, times four
Interp(f, c, pos) == /\ UNCHANGED <<n, lab, frames, count>>
    /\ res' = IF ~Ok2(f, c) THEN Err
              ELSE IF pos = 0 THEN OkV(4 * frames[Row(f)][c + 1])
              ELSE IF f + 1 < count THEN OkV((4 - pos) * frames[Row(f)][c + 1] + pos * frames[Row(f) + 1][c + 1])
              ELSE None
Reset(k, l, x) == n' = k /\ lab' = l /\ frames' = Fill(Min2(k, count), Fill(Len(l), x)) /\ res' = Ok /\ UNCHANGED count
Refuse(r) == res' = r /\ UNCHANGED <<n, lab, frames, count>>
Resize(k, c, x) == IF c < Ch THEN Refuse(Err) ELSE Reset(k, Grown(lab, c), x)
AddChannel(l) == IF HasLabel(lab, l) THEN Refuse(Err)
                 ELSE n' = n /\ lab' = Append(lab, <<l>>) /\ frames' = Fill(Min2(n, count), Fill(Ch + 1, 0)) /\ res' = OkV(Ch) /\ UNCHANGED count
Call(c) ==
  \/ c[1] = "new" /\ New(c[2], c[3])
  \/ c[1] = "newd" /\ New(0, 0)
  \/ c[1] = "newc" /\ New(c[2], 0)
  \/ c[1] = "add" /\ Add(c[2])
  \/ c[1] \in {"at", "cat"} /\ At(c[2], c[3])
  \/ c[1] \in {"get", "cget"} /\ Read(c[2], c[3])
  \/ c[1] \in {"rev", "crev"} /\ Read(count - 1 - c[2], c[3])
  \/ c[1] \in {"last", "clast"} /\ Read(count - 1, c[2])
  \/ c[1] = "atset" /\ Write(c[2], c[3], c[4], Err)
  \/ c[1] = "set" /\ Write(c[2], c[3], c[4], None)
  \/ c[1] = "revset" /\ Write(count - 1 - c[2], c[3], c[4], None)
  \/ c[1] = "lastset" /\ Write(count - 1, c[2], c[3], None)
  \/ c[1] = "interp" /\ Interp(c[2], c[3], c[4])
  \/ c[1] = "resize" /\ Resize(c[2], c[3], c[4])
  \/ c[1] = "resizef" /\ Reset(c[2], lab, c[3])
  \/ c[1] = "resized" /\ Resize(c[2], c[3], 0)
  \/ c[1] = "addch" /\ AddChannel(c[2])
  \/ c[1] = "faddch" /\ (IF HasLabel(lab, c[2]) THEN Refuse(OkV(FindLabel(lab, c[2]))) ELSE AddChannel(c[2]))
  \/ c[1] = "label" /\ (IF CanSet(lab, c[2], c[3]) THEN lab' = SetLabel(lab, c[2], c[3]) /\ res' = Ok /\ UNCHANGED <<n, frames, count>> ELSE Refuse(Err))
  \/ c[1] = "find" /\ Refuse(OkV(FindLabel(lab, c[2])))
Observed == <<count', Len(lab'), Texts(lab'), B(n' * Len(lab') = 0), frames'>>
-----------------------------------------------------------------------------
MostRecent == Len(frames) = Min2(n, count)
Rectangular == \A i \in DOMAIN frames : Len(frames[i]) = Ch
Labels == NoTwoLabelsEqual(lab)
\* adding a frame drops at most the oldest one and changes no other
Shift == [][ (count' = count + 1) => \A f \in 0..(count - 1) : (Kept(f) /\ f >= count' - n) => frames'[f - (count' - Len(frames')) + 1] = frames[Row(f)] ]_vars
=============================================================================
