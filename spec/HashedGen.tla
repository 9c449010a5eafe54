------------------------------- MODULE HashedGen -------------------------------
(***************************************************************************)
(* A writer that takes data in pieces and an adversary who changes blocks, *)
(* exhaustively for small sizes with a toy hash that no two data share.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS MaxData, MaxBlock
VARIABLES phase, bs, writes, buf, sent, next, blocks, change

\* injective on sequences of at most MaxData numbers up to MaxData
Toy(d) == <<1 + Len(d)>> \o [i \in 1..MaxData |-> IF i <= Len(d) THEN d[i] ELSE 0]
S == INSTANCE HashedStream WITH Hash <- Toy, HashSize <- MaxData + 1

Data == [i \in 1..Len(FlattenSeq(writes)) |-> i]     \* all bytes different
TypeBlocks(b) == FlattenSeq([i \in 1..Len(b) |-> b[i]])
vars == <<phase, bs, writes, buf, sent, next, blocks, change>>

Init == /\ phase = "write" /\ bs \in 1..MaxBlock /\ writes = <<>> /\ buf = <<>> /\ sent = 0 /\ next = 0 /\ blocks = <<>> /\ change = <<>>
(* The writer: bytes go to the buffer, a full buffer becomes a block.       *)
RECURSIVE Put(_, _, _, _)
Put(n, b, s, bl) == IF n = 0 THEN <<b, s, bl>>
                    ELSE LET b2 == Append(b, s + 1) IN
                         IF Len(b2) = bs THEN Put(n - 1, <<>>, s + 1, Append(bl, S!Block(Len(bl), b2))) ELSE Put(n - 1, b2, s + 1, bl)
Write == /\ phase = "write"
         /\ \E n \in 1..MaxData : /\ sent + n <= MaxData
                /\ LET r == Put(n, buf, sent, blocks) IN buf' = r[1] /\ sent' = r[2] /\ blocks' = r[3]
                /\ writes' = Append(writes, [i \in 1..n |-> sent + i])
         /\ UNCHANGED <<phase, bs, next, change>>
Finish == /\ phase = "write" /\ phase' = "written"
          /\ LET a == IF buf = <<>> THEN blocks ELSE Append(blocks, S!Block(Len(blocks), buf))
             IN blocks' = Append(a, S!Block(Len(a), <<>>))
          /\ buf' = <<>> /\ UNCHANGED <<bs, writes, sent, next, change>>
(* The adversary makes one change.                                          *)
N == Len(blocks)
HeadSize == 8 + MaxData + 1
Dropped(i) == SubSeq(blocks, 1, i - 1) \o SubSeq(blocks, i + 1, N)
Renumber(b, k) == [b EXCEPT ![1] = k]
Changes ==
    {<<"swap", i, j>> : i \in 1..N, j \in 1..N} \cup {<<"drop", i, 0>> : i \in 1..N} \cup {<<"repeat", i, 0>> : i \in 1..N}
    \cup {<<"move", i, j>> : i \in 1..N, j \in 1..N} \cup {<<"number", i, k>> : i \in 1..N, k \in 0..N}
    \cup {<<"byte", i, k>> : i \in 1..N, k \in {5, 6, 6 + MaxData, HeadSize + 1, HeadSize + 2}} \cup {<<"cut", i, k>> : i \in 1..N, k \in {0, 1, HeadSize - 1, HeadSize, HeadSize + 1}}
    \cup {<<"join", i, 0>> : i \in 1..(N - 2)} \cup {<<"none", 0, 0>>}
Changed(ch) ==
    CASE ch[1] = "none" -> blocks
      [] ch[1] = "swap" -> [blocks EXCEPT ![ch[2]] = blocks[ch[3]], ![ch[3]] = blocks[ch[2]]]
      [] ch[1] = "drop" -> Dropped(ch[2])
      [] ch[1] = "repeat" -> SubSeq(blocks, 1, ch[2]) \o SubSeq(blocks, ch[2], N)
      [] ch[1] = "move" -> LET a == Dropped(ch[2]) IN SubSeq(a, 1, ch[3] - 1) \o <<blocks[ch[2]]>> \o SubSeq(a, ch[3], N - 1)
      [] ch[1] = "number" -> [blocks EXCEPT ![ch[2]] = Renumber(@, ch[3])]
      [] ch[1] = "byte" -> IF ch[3] > Len(blocks[ch[2]]) THEN blocks ELSE [blocks EXCEPT ![ch[2]][ch[3]] = (@ + 7) % 256]
      [] ch[1] = "cut" -> SubSeq(blocks, 1, ch[2] - 1) \o <<SubSeq(blocks[ch[2]], 1, IF ch[3] < Len(blocks[ch[2]]) THEN ch[3] ELSE Len(blocks[ch[2]]))>>
      [] ch[1] = "join" -> [blocks EXCEPT ![ch[2]] = SubSeq(@, 1, Len(@) - 1)]
Attack == /\ phase = "written" /\ phase' = "read" /\ \E ch \in Changes : change' = ch /\ blocks' = Changed(ch)
          /\ UNCHANGED <<bs, writes, buf, sent, next>>
Next == Write \/ Finish \/ Attack

(* The pieces in which the data came do not show.                           *)
Exact == phase = "written" => TypeBlocks(blocks) = S!Stream(Data, bs)
Readable == phase = "written" => S!Read(TypeBlocks(blocks)) = [end |-> "ok", data |-> Data, rest |-> 0]
(* Whatever is done to the blocks: intact data first, then an error, unless *)
(* the stream is as it was.                                                 *)
Guarded == phase = "read" =>
    LET r == S!Read(TypeBlocks(blocks)) IN
    /\ IsPrefix(r.data, Data)
    /\ r.end = "ok" => r.data = Data
Emit == ("EMIT" \in DOMAIN IOEnv /\ phase = "read") =>
            PrintT("@RUN " \o ToJson([bs |-> bs, writes |-> [i \in 1..Len(writes) |-> Len(writes[i])], change |-> change]))
=============================================================================
