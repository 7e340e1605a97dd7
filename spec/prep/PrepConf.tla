------------------------------ MODULE PrepConf ------------------------------
(* Judges what the real preparation made of recorded images. got: the files, each with image, block and layers.        *)
EXTENDS Prep, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.PREP_TRACE)
VARIABLE t
M == Cases[t]
Near(a, b) == a - b <= 2 /\ b - a <= 2
\* class of every raw value
Classes == \A v \in 0..(Len(M.got) - 1) : (M.layout \notin {"HLS", "HLS14"} /\ Bit(v, 0)) \/ M.got[v + 1] = Class(M.layout, v)
Nb == M.nx * M.ny
Own(k) == IF M.single THEN M.own ELSE <<>>
Wanted == {<<k, b>> \in (1..Len(M.imgs)) \X (1..Nb) : Taken(M.layout, M.imgs[k], M.ask) /\ Useful(M.layout, M.imgs[k], b, M, Own(k))}
Written == {<<M.got[i].img, M.got[i].block>> : i \in 1..Len(M.got)}
Files == Written = Wanted /\ Cardinality(Written) = Len(M.got)
\* layers of a block: each value where it belongs
Layer(f) ==
  LET img == M.imgs[f.img] IN
  \A q \in 0..(M.w * M.h - 1) :
    LET i == Index(f.block, q, M.nx, M.w, M.h, M.ncol) IN
    /\ Len(f.bands) = 8
    /\ \A l \in 1..6 : Near(f.bands[l][q + 1], Reflectance(M.layout, img.bands[l][i]))
    /\ Near(f.bands[7][q + 1], Thermal(M.layout, img.bands[7][i]))
    /\ f.bands[8][q + 1] = Seen(M.layout, img, i, Own(f.img))
Content == \A i \in 1..Len(M.got) : Layer(M.got[i])
\* not cut into blocks: the whole image in one file, whatever is seen on it
Whole == /\ {M.got[i].img : i \in 1..Len(M.got)} = {k \in 1..Len(M.imgs) : Taken(M.layout, M.imgs[k], M.ask)}
         /\ \A i \in 1..Len(M.got) : Layer(M.got[i])
Span == M.span = SpanOf({M.imgs[k].date : k \in 1..Len(M.imgs)}, M.ask)
Right(x) == CASE x = "classes" -> Classes [] x = "files" -> Files [] x = "content" -> Content [] x = "whole" -> Whole [] x = "span" -> Span
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ \A i \in 1..Len(M.kinds) : IF Right(M.kinds[i]) THEN TRUE ELSE PrintT(<<"WRONG", t, M.kinds[i]>>)
        /\ t' = t + 1
Seen_ == t = Len(Cases) + 1 => PrintT(<<"SEEN", Len(Cases)>>)
=============================================================================
