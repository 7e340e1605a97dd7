------------------------------- MODULE GridMC -------------------------------
EXTENDS Grid, IOUtils
cMax == atoi(IOEnv.G_MAX)
cLayouts == [x : 1..cMax, y : 1..cMax, w : 1..cMax, h : 1..cMax] \cup
            \* block numbers of two digits
            {[x |-> a[1], y |-> a[2], w |-> v, h |-> u] : a \in {<<1, 12>>, <<11, 1>>, <<4, 3>>, <<11, 10>>}, v \in {1, 2}, u \in {1, 2}}
\* the ARD tile, Sentinel tile and odd big layouts, corners, edges and some inner pixels of every kind of block
Big == {[x |-> 20, y |-> 20, w |-> 250, h |-> 250], [x |-> 30, y |-> 30, w |-> 122, h |-> 122], [x |-> 50, y |-> 20, w |-> 100, h |-> 250],
        [x |-> 7, y |-> 11, w |-> 300, h |-> 200], [x |-> 1, y |-> 20, w |-> 5000, h |-> 250]}
cSampled == UNION {{<<h, c, j>> : c \in {1, 2, h.x, h.x + 1, h.x * h.y - 1, h.x * h.y, (h.x * h.y) \div 2} \cap 1..(h.x * h.y),
                                 j \in {0, 1, h.w - 1, h.w, h.w + 1, h.h - 1, h.h, h.w * h.h - 1, (h.w * h.h) \div 2, (h.w * h.h) \div 3}} : h \in Big}
=============================================================================
