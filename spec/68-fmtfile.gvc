// Formatting names and whole files.

pred escChar(b: int): int = if b == 7 then 'a' else if b == 8 then 'b' else if b == 9 then 't' else if b == 10 then 'n' else if b == 11 then 'v' else if b == 12 then 'f' else if b == 13 then 'r' else if b == 34 then 34 else if b == 92 then 92 else 0
pred isQuoted(b: int): bool = b < 32 || b >= 127 || b == 34 || b == 92
opaque pred escText(b: int): []byte = if escChar(b) != 0 then "\\" ++ unit(escChar(b)) else "\\" ++ unit(48 + b/64) ++ unit(48 + (b/8)%8) ++ unit(48 + b%8)
pred quotedByte(b: int): []byte = if isQuoted(b) then escText(b) else unit(b)
opaque pred quoteBody(s: []byte, i: int): []byte = if i <= 0 then empty() else quoteBody(s, i-1) ++ quotedByte(s[i-1])
opaque pred anyQuoted(s: []byte, i: int): bool = i > 0 && (anyQuoted(s, i-1) || isQuoted(s[i-1]))
opaque pred quotedName(s: []byte): []byte = if anyQuoted(s, len(s)) then "\"" ++ quoteBody(s, len(s)) ++ "\"" else s

lemma quoteStep(s: []byte, i: int)
  ensures i <= 0 ==> quoteBody(s, i) == empty() && !anyQuoted(s, i)
  ensures i >= 0 ==> quoteBody(s, i+1) == quoteBody(s, i) ++ quotedByte(s[i]) && (anyQuoted(s, i+1) <==> anyQuoted(s, i) || isQuoted(s[i]))
  uses reveal:quoteBody reveal:anyQuoted

func quoteByte(b) (q, quoted)
  allocates
  fresh q
  uses reveal:escText
  ensures quoted <==> isQuoted(b)
  ensures quoted ==> q == escText(b)

func (*formatter).WriteQuotedName(s) ()
  requires fmOK(recv)
  modifies out(recv.w)
  allocates
  uses reveal:quotedName
  ensures out(recv.w) == old(out(recv.w)) ++ quotedName(s)
  local i int
  local qpos int
  loop 1
    pre let h0 = out(recv.w)
    pre use quoteStep(s, 0)
    invariant 0 <= qpos <= i && i <= len(s)
    invariant qpos > 0 <==> anyQuoted(s, i)
    invariant quoteBody(s, i) == quoteBody(s, qpos) ++ s[qpos:i]
    invariant out(recv.w) == h0 ++ (if qpos > 0 then "\"" ++ quoteBody(s, qpos) else empty())
    body use quoteStep(s, i)
    body let q0 = qpos
    body let o1 = out(recv.w)
    body let i0 = i
    end assert isQuoted(s[i0]) || s[q0:i0] ++ unit(s[i0]) == s[q0:i0+1]


pred nameA(f: *File): []byte = if f.OldName == "" then f.NewName else f.OldName
pred nameB(f: *File): []byte = if f.OldName == "" then f.NewName else if f.NewName == "" then f.OldName else f.NewName
pred qA(s: []byte): []byte = quotedName("a/" ++ s)
pred qB(s: []byte): []byte = quotedName("b/" ++ s)
pred twoModes(f: *File): bool = f.OldMode != 0 && f.NewMode != 0
pred gitText(f: *File): []byte = "diff --git " ++ qA(nameA(f)) ++ " " ++ qB(nameB(f)) ++ "\n"
pred oldModeText(f: *File): []byte = if f.IsDelete then "deleted file mode " ++ otoa(f.OldMode) ++ "\n" else if twoModes(f) then "old mode " ++ otoa(f.OldMode) ++ "\n" else empty()
pred newModeText(f: *File): []byte = if f.IsNew then "new file mode " ++ otoa(f.NewMode) ++ "\n" else if twoModes(f) then "new mode " ++ otoa(f.NewMode) ++ "\n" else empty()
pred scoreText(f: *File): []byte = if f.Score <= 0 then empty() else if f.IsCopy || f.IsRename then "similarity index " ++ itoa(f.Score) ++ "%\n" else "dissimilarity index " ++ itoa(f.Score) ++ "%\n"
pred copyText(f: *File): []byte = if !f.IsCopy then empty() else (if f.OldName != "" then "copy from " ++ quotedName(f.OldName) ++ "\n" else empty()) ++ (if f.NewName != "" then "copy to " ++ quotedName(f.NewName) ++ "\n" else empty())
pred renameText(f: *File): []byte = if !f.IsRename then empty() else (if f.OldName != "" then "rename from " ++ quotedName(f.OldName) ++ "\n" else empty()) ++ (if f.NewName != "" then "rename to " ++ quotedName(f.NewName) ++ "\n" else empty())
pred indexMode(f: *File): bool = f.OldMode != 0 && (f.NewMode == 0 && !f.IsDelete || f.OldMode == f.NewMode)
pred indexText(f: *File): []byte = if f.OldOIDPrefix == "" || f.NewOIDPrefix == "" then empty() else "index " ++ f.OldOIDPrefix ++ ".." ++ f.NewOIDPrefix ++ (if indexMode(f) then " " ++ otoa(f.OldMode) else empty()) ++ "\n"
pred binaryText(f: *File): []byte = if !f.IsBinary then empty() else if f.BinaryFragment == nil then "Binary files " ++ qA(nameA(f)) ++ " and " ++ qB(nameB(f)) ++ " differ\n"
  | else "GIT binary patch\n" ++ binText(f.BinaryFragment) ++ (if f.ReverseBinaryFragment != nil then binText(f.ReverseBinaryFragment) else empty())
opaque pred fragsText(fs: []*TextFragment, i: int): []byte = if i <= 0 then empty() else fragsText(fs, i-1) ++ fragText(fs[i-1])
lemma fragsStep(fs: []*TextFragment, i: int)
  ensures i <= 0 ==> fragsText(fs, i) == empty()
  ensures i >= 0 ==> fragsText(fs, i+1) == fragsText(fs, i) ++ fragText(fs[i])
  uses reveal:fragsText
pred oldNameText(f: *File): []byte = "--- " ++ (if f.OldName == "" then "/dev/null" else qA(f.OldName)) ++ "\n"
pred newNameText(f: *File): []byte = "+++ " ++ (if f.NewName == "" then "/dev/null" else qB(f.NewName)) ++ "\n"
pred textPart(f: *File): []byte = if len(f.TextFragments) == 0 then empty() else oldNameText(f) ++ newNameText(f) ++ fragsText(f.TextFragments, len(f.TextFragments))
pred headText(f: *File): []byte = gitText(f) ++ oldModeText(f) ++ newModeText(f) ++ scoreText(f) ++ copyText(f) ++ renameText(f) ++ indexText(f)
pred fileText(f: *File): []byte = headText(f) ++ binaryText(f) ++ textPart(f)

func (*formatter).FormatFile(f) ()
  requires fmOK(recv) && f != nil && (forall i {f.TextFragments[i]} :: 0 <= i < len(f.TextFragments) ==> f.TextFragments[i] != nil)
  modifies out(recv.w)
  allocates
  merge
  ensures out(recv.w) == old(out(recv.w)) ++ fileText(f)
  loop 1
    pre let h0 = out(recv.w)
    pre use fragsStep(f.TextFragments, 0)
    pre assert h0 == old(out(recv.w)) ++ headText(f) ++ binaryText(f) ++ oldNameText(f) ++ newNameText(f)
    invariant out(recv.w) == h0 ++ fragsText(f.TextFragments, $i)
    body let o1 = out(recv.w)
    end assert out(recv.w) == o1 ++ fragText(f.TextFragments[$i-1])
    end use fragsStep(f.TextFragments, $i-1)
    end use catGrow(h0, fragsText(f.TextFragments, $i-1), fragText(f.TextFragments[$i-1]), o1, fragsText(f.TextFragments, $i))
    post assert out(recv.w) == old(out(recv.w)) ++ headText(f) ++ binaryText(f) ++ oldNameText(f) ++ newNameText(f) ++ fragsText(f.TextFragments, len(f.TextFragments))
    post assert out(recv.w) == old(out(recv.w)) ++ fileText(f)

func (*File).String() (s)
  requires recv != nil && (forall i {recv.TextFragments[i]} :: 0 <= i < len(recv.TextFragments) ==> recv.TextFragments[i] != nil)
  allocates
  ensures s == fileText(recv)
