----------------------------- MODULE StringUtf -----------------------------
(* StringOps!Utf8, stated byte by byte, is the definition that consumes one *)
(* character after the other: all byte strings up to length Longest over one    *)
(* representative of every class of bytes.                                  *)
EXTENDS StringOps
CONSTANT Longest
Classes == {10, 13, 65, 128, 143, 144, 160, 191, 192, 194, 224, 237, 240, 244, 245}
VARIABLE buf
Init == buf = <<>>
Next == Len(buf) < Longest /\ \E x \in Classes : buf' = Append(buf, x)
Spec == Init /\ [][Next]_buf
Same == Utf8(buf) <=> Utf8Rec(buf)
(* the documents of a file are those before a line feed and those after it *)
Parts == \A i \in DOMAIN buf : buf[i] = LF =>
           Docs(buf) = Docs(SubSeq(buf, 1, i)) \o Docs(SubSeq(buf, i + 1, Len(buf)))
=============================================================================
