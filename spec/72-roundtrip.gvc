// Formatting files one after the other and parsing the text gives the same files.

// ---- fragments one after the other
pred fragsKept(fs: []*TextFragment): bool = forall i {fs[i]} :: 0 <= i < len(fs) ==> fragKept(fs[i])
// the line where the i-th fragment is written if the first one starts at line s
opaque pred fragPos(fs: []*TextFragment, s: int, i: int): int = if i <= 0 then s else fragPos(fs, s, i-1) + 1 + nLns(fs[i-1].Lines, len(fs[i-1].Lines))
lemma fragPosStep(fs: []*TextFragment, s: int, i: int)
  ensures fragPos(fs, s, 0) == s
  ensures i >= 0 ==> fragPos(fs, s, i+1) == fragPos(fs, s, i) + 1 + nLns(fs[i].Lines, len(fs[i].Lines)) && nLns(fs[i].Lines, len(fs[i].Lines)) >= 0
  uses reveal:fragPos
  proof use nLnsPos(fs[i].Lines, len(fs[i].Lines))
lemma fragPosUp(fs: []*TextFragment, s: int, i: int, n: int)
  requires 0 <= i <= n
  ensures fragPos(fs, s, i) + (n - i) <= fragPos(fs, s, n)
  decreases n - i
  proof case i == n
  proof use fragPosUp(fs, s, i, n-1)
  proof use fragPosStep(fs, s, n-1)
lemma fragLines(f: *TextFragment, c: []byte, s: int)
  requires fragKept(f) && s >= 0 && textAt(c, s, fragText(f))
  ensures isHdr(lineAt(c, s)) && lineStart(c, s + 1 + nLns(f.Lines, len(f.Lines))) == lineStart(c, s) + len(fragText(f))
  proof let L = f.Lines
  proof use textSplit(c, s, hdrLine(f), fmtLines(L, len(L)))
  proof use hdrParses(f)
  proof use oneLine(c, s, hdrLine(f))
  proof assert textAt(c, s+1, fmtLines(L, len(L)))
  proof use bodyLines(c, s+1, L, len(L))
// the text of the first i fragments, and the next one
lemma fragsWritten(c: []byte, s: int, fs: []*TextFragment, i: int)
  requires s >= 0 && 0 <= i <= len(fs) && fragsKept(fs) && textAt(c, s, fragsText(fs, i))
  ensures lineStart(c, fragPos(fs, s, i)) == lineStart(c, s) + len(fragsText(fs, i)) && fragPos(fs, s, i) >= s
  ensures i > 0 ==> textAt(c, s, fragsText(fs, i-1)) && textAt(c, fragPos(fs, s, i-1), fragText(fs[i-1])) && isHdr(lineAt(c, fragPos(fs, s, i-1)))
  decreases i
  proof use fragPosStep(fs, s, i-1)
  proof use fragsStep(fs, i-1)
  proof use fragsStep(fs, 0)
  proof use fragPosStep(fs, s, 0)
  proof case i == 0
  proof use textNext(c, s, fragsText(fs, i-1), fragText(fs[i-1]), fragPos(fs, s, i-1))
  proof use fragsWritten(c, s, fs, i-1)
  proof use fragLines(fs[i-1], c, fragPos(fs, s, i-1))
lemma fragsPrefix(c: []byte, s: int, fs: []*TextFragment, i: int, n: int)
  requires s >= 0 && 0 <= i <= n && n <= len(fs) && fragsKept(fs) && textAt(c, s, fragsText(fs, n))
  ensures textAt(c, s, fragsText(fs, i))
  decreases n - i
  proof case i == n
  proof use fragsWritten(c, s, fs, n)
  proof use fragsPrefix(c, s, fs, i, n-1)
lemma fragsOne(c: []byte, s: int, fs: []*TextFragment, i: int)
  requires s >= 0 && 0 <= i < len(fs) && fragsKept(fs) && textAt(c, s, fragsText(fs, len(fs))) && !isMarker(lineAt(c, fragPos(fs, s, len(fs))))
  ensures fragPos(fs, s, i) >= s && textAt(c, fragPos(fs, s, i), fragText(fs[i])) && !isMarker(lineAt(c, fragPos(fs, s, i) + 1 + nLns(fs[i].Lines, len(fs[i].Lines))))
  proof use fragsPrefix(c, s, fs, i+1, len(fs))
  proof use fragsWritten(c, s, fs, i+1)
  proof use fragsWritten(c, s, fs, i)
  proof use fragPosStep(fs, s, i)
  proof case i + 1 == len(fs)
  proof use fragsPrefix(c, s, fs, i+2, len(fs))
  proof use fragsWritten(c, s, fs, i+2)

pred fits(fs: []*TextFragment, isNew: bool, isDel: bool): bool = forall i {fs[i]} :: 0 <= i < len(fs) ==> (isNew ==> fs[i].OldLines == 0) && (isDel ==> fs[i].NewLines == 0)
// fragments that are written from line s on, with something else after them
opaque pred fragsThere(c: []byte, s: int, fs: []*TextFragment): bool = s >= 0 && fragsKept(fs) && textAt(c, s, fragsText(fs, len(fs))) && !isMarker(lineAt(c, fragPos(fs, s, len(fs)))) && !isHdr(lineAt(c, fragPos(fs, s, len(fs))))
lemma fragThere(c: []byte, s: int, fs: []*TextFragment, i: int)
  requires fragsThere(c, s, fs) && 0 <= i < len(fs)
  ensures fragPos(fs, s, i) >= s && textAt(c, fragPos(fs, s, i), fragText(fs[i])) && !isMarker(lineAt(c, fragPos(fs, s, i) + 1 + nLns(fs[i].Lines, len(fs[i].Lines))))
  ensures isHdr(lineAt(c, fragPos(fs, s, i))) && fragPos(fs, s, i+1) == fragPos(fs, s, i) + 1 + fLen(c, fragPos(fs, s, i)) && fragKept(fs[i])
  uses reveal:fragsThere
  proof use fragsOne(c, s, fs, i)
  proof use fragPosStep(fs, s, i)
  proof use fragParses(fs[i], c, fragPos(fs, s, i))
lemma fragsFollow(c: []byte, s: int, fs: []*TextFragment, i: int)
  requires fragsThere(c, s, fs) && 0 <= i <= len(fs)
  ensures fragAt(c, s, i) == fragPos(fs, s, i)
  decreases i
  proof use fragPosStep(fs, s, 0)
  proof case i == 0
  proof use fragsFollow(c, s, fs, i-1)
  proof use fragThere(c, s, fs, i-1)
lemma fragsLast(c: []byte, s: int, fs: []*TextFragment, i: int)
  requires fragsThere(c, s, fs) && 0 <= i <= len(fs)
  ensures fragsEnd(c, fragPos(fs, s, i)) == fragPos(fs, s, len(fs))
  uses reveal:fragsThere
  decreases len(fs) - i
  proof use fragsEndStep(c, fragPos(fs, s, i))
  proof case i == len(fs)
  proof use fragThere(c, s, fs, i)
  proof use fragsLast(c, s, fs, i+1)
lemma fragsFine(c: []byte, s: int, fs: []*TextFragment, i: int, isNew: bool, isDel: bool)
  requires fragsThere(c, s, fs) && 0 <= i <= len(fs) && fits(fs, isNew, isDel)
  ensures !fragsBad(c, fragPos(fs, s, i), isNew, isDel)
  uses reveal:fragsThere
  decreases len(fs) - i
  proof use fragsBadStep(c, fragPos(fs, s, i), isNew, isDel)
  proof case i == len(fs)
  proof use fragThere(c, s, fs, i)
  proof use fragAccepted(fs[i], c, fragPos(fs, s, i), isNew, isDel)
  proof use fragsFine(c, s, fs, i+1, isNew, isDel)
lemma fragsTotal(c: []byte, s: int, fs: []*TextFragment)
  requires fragsThere(c, s, fs)
  ensures fragsEnd(c, s) == fragPos(fs, s, len(fs)) && lineStart(c, fragsEnd(c, s)) == lineStart(c, s) + len(fragsText(fs, len(fs))) && (len(fs) > 0 <==> isHdr(lineAt(c, s)))
  uses reveal:fragsThere
  proof use fragPosStep(fs, s, 0)
  proof use fragsLast(c, s, fs, 0)
  proof use fragsWritten(c, s, fs, len(fs))
  proof case len(fs) == 0
  proof use fragThere(c, s, fs, 0)

// f and g are the same fragments
pred sameFrags(fs: []*TextFragment, gs: []*TextFragment): bool = len(fs) == len(gs) && (forall i {gs[i]} :: 0 <= i < len(gs) ==> sameFrag(fs[i], gs[i]))
pred fragsRead(c: []byte, s: int, g: *File): bool = textOf(g, c, s) && allText(g, c, s) && fragsOK(g)
lemma notBoth(c: []byte, s: int, g: *TextFragment)
  requires parsedFrag(g, c, s)
  ensures isHdr(lineAt(c, s))
  uses reveal:fOK
  proof use hdrOKIs(lineAt(c, s))
lemma fragsStops(c: []byte, s: int, fs: []*TextFragment)
  requires fragsThere(c, s, fs)
  ensures !isHdr(lineAt(c, fragPos(fs, s, len(fs))))
  uses reveal:fragsThere
lemma fragsCount(c: []byte, s: int, fs: []*TextFragment, g: *File)
  requires fragsThere(c, s, fs) && g != nil && fragsRead(c, s, g)
  ensures len(fs) == len(g.TextFragments)
  proof use fragsTotal(c, s, fs)
  proof case len(fs) == 0
  proof let n = len(g.TextFragments)
  proof assert len(fs) == 0 || isHdr(lineAt(c, s))
  proof assert len(fs) == 0 || n > 0
  proof assert len(fs) == 0 || fragAt(c, s, n) == fragsEnd(c, s)
  proof case n <= len(fs)
  proof   use fragsFollow(c, s, fs, n)
  proof   use fragPosUp(fs, s, n, len(fs))
  proof use fragsFollow(c, s, fs, len(fs))
  proof use notBoth(c, fragAt(c, s, len(fs)), g.TextFragments[len(fs)])
  proof use fragsStops(c, s, fs)
lemma fragBack(c: []byte, s: int, fs: []*TextFragment, g: *File, i: int)
  requires fragsThere(c, s, fs) && g != nil && fragsRead(c, s, g) && 0 <= i < len(fs) && len(fs) == len(g.TextFragments)
  ensures sameFrag(fs[i], g.TextFragments[i])
  proof use fragsFollow(c, s, fs, i)
  proof use fragThere(c, s, fs, i)
  proof use fragRoundTrip(fs[i], g.TextFragments[i], c, fragPos(fs, s, i))
lemma fragsBack(c: []byte, s: int, fs: []*TextFragment, g: *File, i: int)
  requires fragsThere(c, s, fs) && g != nil && fragsRead(c, s, g) && 0 <= i <= len(fs) && len(fs) == len(g.TextFragments)
  ensures forall j {g.TextFragments[j]} :: 0 <= j < i ==> sameFrag(fs[j], g.TextFragments[j])
  decreases i
  proof case i == 0
  proof use fragsBack(c, s, fs, g, i-1)
  proof use fragBack(c, s, fs, g, i-1)

// ---- the part of a binary file
pred binLines(b: *BinaryFragment): int = 2 + dataCnt(b.RawData)
pred binPartLines(f: *File): int = if !f.IsBinary then 0 else if f.BinaryFragment == nil then 1 else 1 + binLines(f.BinaryFragment) + (if f.ReverseBinaryFragment != nil then binLines(f.ReverseBinaryFragment) else 0)
pred binPartKept(f: *File): bool = (f.BinaryFragment != nil ==> f.IsBinary && binKept(f.BinaryFragment)) && (f.ReverseBinaryFragment != nil ==> f.BinaryFragment != nil && binKept(f.ReverseBinaryFragment))
  | && (f.IsBinary && f.BinaryFragment == nil ==> noNewline(qA(nameA(f))) && noNewline(qB(nameB(f))))
// a line that can follow a file
pred apart(l: []byte): bool = gitEnd(l) && !isMarker(l) && !isHdr(l) && !isBinMark(l) && !isBinHdr(l)
lemma binWritten(c: []byte, s: int, b: *BinaryFragment)
  requires binKept(b) && s >= 0 && textAt(c, s, binText(b))
  ensures binEnd(c, s) == s + binLines(b) && lineStart(c, s + binLines(b)) == lineStart(c, s) + len(binText(b)) && binGood(c, s) && isBinHdr(lineAt(c, s))
  proof use binParses(b, c, s)
  proof use binAccepted(b, c, s)
lemma markBinary()
  ensures oneLineText("GIT binary patch\n") && isBinMark("GIT binary patch\n") && hasBinData("GIT binary patch\n") && !isHdr("GIT binary patch\n")
  ensures gitEnd("GIT binary patch\n")
  uses reveal:isBinMark reveal:hasBinData reveal:gitEnd reveal:gitEndBare
  proof let l = "GIT binary patch\n"
  proof assert trimSuf(l, "\n") == "GIT binary patch"
lemma markDiffer(a: []byte, b: []byte)
  requires noNewline(a) && noNewline(b)
  ensures oneLineText("Binary files " ++ a ++ " and " ++ b ++ " differ\n") && isBinMark("Binary files " ++ a ++ " and " ++ b ++ " differ\n") && !hasBinData("Binary files " ++ a ++ " and " ++ b ++ " differ\n")
  ensures gitEnd("Binary files " ++ a ++ " and " ++ b ++ " differ\n") && !isHdr("Binary files " ++ a ++ " and " ++ b ++ " differ\n")
  uses reveal:isBinMark reveal:hasBinData reveal:gitEnd reveal:gitEndBare
  proof let t = a ++ " and " ++ b ++ " differ"
  proof let l = "Binary files " ++ t ++ "\n"
  proof assert "Binary files " ++ a ++ " and " ++ b ++ " differ\n" == l
  proof assert noNewline(t)
  proof use lineOfTwo("Binary files ", t)
  proof assert l[:13] == "Binary files " && l[len(l)-8:] == " differ\n"
  proof assert trimSuf(l, "\n") == "Binary files " ++ t
  proof assert ("Binary files " ++ t)[:13] == "Binary files "
  proof assert l[0] == 'B'
opaque pred binThere(c: []byte, s: int, f: *File): bool = s >= 0 && f != nil && f.IsBinary && binPartKept(f) && textAt(c, s, binaryText(f)) && !isBinHdr(lineAt(c, s + binPartLines(f)))
// the parts of the text
lemma binFirst(c: []byte, s: int, f: *BinaryFragment, b: []byte)
  requires s >= 0 && binKept(f) && textAt(c, s, "GIT binary patch\n" ++ (binText(f) ++ b))
  ensures lineAt(c, s) == "GIT binary patch\n" && lineStart(c, s+1) == lineStart(c, s) + 17
  ensures textAt(c, s+1, binText(f)) && binEnd(c, s+1) == s + 1 + binLines(f) && binGood(c, s+1)
  ensures lineStart(c, s + 1 + binLines(f)) == lineStart(c, s) + 17 + len(binText(f)) && textAt(c, s + 1 + binLines(f), b)
  proof let m = "GIT binary patch\n"
  proof let a = binText(f)
  proof use markBinary()
  proof use textNext(c, s, m, a ++ b, s+1)
  proof use oneLine(c, s, m)
  proof assert len(m) == 17
  proof assert textAt(c, s+1, a ++ b)
  proof use textNext(c, s+1, a, b, s + 1 + binLines(f))
  proof use binWritten(c, s+1, f)
lemma binTextIs(f: *File)
  requires f.IsBinary && f.BinaryFragment != nil
  ensures f.ReverseBinaryFragment == nil ==> binaryText(f) == "GIT binary patch\n" ++ (binText(f.BinaryFragment) ++ empty())
  ensures f.ReverseBinaryFragment != nil ==> binaryText(f) == "GIT binary patch\n" ++ (binText(f.BinaryFragment) ++ binText(f.ReverseBinaryFragment))
lemma binOneThere(c: []byte, s: int, f: *File)
  requires s >= 0 && f.IsBinary && f.BinaryFragment != nil && f.ReverseBinaryFragment == nil && binKept(f.BinaryFragment) && textAt(c, s, binaryText(f))
  ensures lineAt(c, s) == "GIT binary patch\n" && textAt(c, s+1, binText(f.BinaryFragment)) && binGood(c, s+1)
  ensures binEnd(c, s+1) == s + binPartLines(f) && lineStart(c, s + binPartLines(f)) == lineStart(c, s) + len(binaryText(f))
  proof use binTextIs(f)
  proof use binFirst(c, s, f.BinaryFragment, empty())
  proof assert len("GIT binary patch\n" ++ (binText(f.BinaryFragment) ++ empty())) == 17 + len(binText(f.BinaryFragment))
lemma binTwoThere(c: []byte, s: int, f: *File)
  requires s >= 0 && f.IsBinary && f.BinaryFragment != nil && f.ReverseBinaryFragment != nil && binKept(f.BinaryFragment) && binKept(f.ReverseBinaryFragment) && textAt(c, s, binaryText(f))
  ensures lineAt(c, s) == "GIT binary patch\n" && textAt(c, s+1, binText(f.BinaryFragment)) && binGood(c, s+1)
  ensures textAt(c, binEnd(c, s+1), binText(f.ReverseBinaryFragment)) && binGood(c, binEnd(c, s+1)) && isBinHdr(lineAt(c, binEnd(c, s+1)))
  ensures binEnd(c, binEnd(c, s+1)) == s + binPartLines(f) && lineStart(c, s + binPartLines(f)) == lineStart(c, s) + len(binaryText(f)) && binEnd(c, s+1) >= 0
  proof use binTextIs(f)
  proof use binFirst(c, s, f.BinaryFragment, binText(f.ReverseBinaryFragment))
  proof use binWritten(c, s + 1 + binLines(f.BinaryFragment), f.ReverseBinaryFragment)
  proof assert len("GIT binary patch\n" ++ (binText(f.BinaryFragment) ++ binText(f.ReverseBinaryFragment))) == 17 + len(binText(f.BinaryFragment)) + len(binText(f.ReverseBinaryFragment))
lemma binThereData(c: []byte, s: int, f: *File)
  requires binThere(c, s, f) && f.BinaryFragment != nil
  ensures s >= 0 && lineAt(c, s) == "GIT binary patch\n" && textAt(c, s+1, binText(f.BinaryFragment)) && binGood(c, s+1)
  ensures f.ReverseBinaryFragment != nil ==> textAt(c, binEnd(c, s+1), binText(f.ReverseBinaryFragment)) && binEnd(c, s+1) >= 0 && binEnd(c, binEnd(c, s+1)) == s + binPartLines(f) && binGood(c, binEnd(c, s+1)) && isBinHdr(lineAt(c, binEnd(c, s+1)))
  ensures f.ReverseBinaryFragment == nil ==> !isBinHdr(lineAt(c, binEnd(c, s+1))) && binEnd(c, s+1) == s + binPartLines(f)
  ensures lineStart(c, s + binPartLines(f)) == lineStart(c, s) + len(binaryText(f))
  uses reveal:binThere
  proof use binOneThere(c, s, f)
  proof use binTwoThere(c, s, f)
lemma differLine(c: []byte, s: int, a: []byte, b: []byte)
  requires s >= 0 && noNewline(a) && noNewline(b) && textAt(c, s, "Binary files " ++ a ++ " and " ++ b ++ " differ\n")
  ensures isBinMark(lineAt(c, s)) && !hasBinData(lineAt(c, s)) && !isHdr(lineAt(c, s)) && gitEnd(lineAt(c, s)) && lineStart(c, s+1) == lineStart(c, s) + len("Binary files " ++ a ++ " and " ++ b ++ " differ\n")
  proof use markDiffer(a, b)
  proof use oneLine(c, s, "Binary files " ++ a ++ " and " ++ b ++ " differ\n")
opaque pred differText(f: *File): []byte = "Binary files " ++ qA(nameA(f)) ++ " and " ++ qB(nameB(f)) ++ " differ\n"
lemma differIs(f: *File)
  requires f.IsBinary && f.BinaryFragment == nil
  ensures binaryText(f) == differText(f)
  uses reveal:differText
lemma differFile(c: []byte, s: int, f: *File)
  requires s >= 0 && noNewline(qA(nameA(f))) && noNewline(qB(nameB(f))) && textAt(c, s, differText(f))
  ensures isBinMark(lineAt(c, s)) && !hasBinData(lineAt(c, s)) && !isHdr(lineAt(c, s)) && gitEnd(lineAt(c, s)) && lineStart(c, s+1) == lineStart(c, s) + len(differText(f))
  uses reveal:differText
  proof use differLine(c, s, qA(nameA(f)), qB(nameB(f)))
lemma binThereNone(c: []byte, s: int, f: *File)
  requires binThere(c, s, f) && f.BinaryFragment == nil
  ensures isBinMark(lineAt(c, s)) && !hasBinData(lineAt(c, s)) && !isHdr(lineAt(c, s)) && gitEnd(lineAt(c, s)) && lineStart(c, s+1) == lineStart(c, s) + len(binaryText(f))
  uses reveal:binThere
  proof use differIs(f)
  proof use differFile(c, s, f)
lemma binThereFile(c: []byte, s: int, f: *File)
  requires binThere(c, s, f)
  ensures f != nil && f.IsBinary && binPartKept(f)
  uses reveal:binThere
// where the part ends, and it is accepted
lemma binTotal(c: []byte, s: int, f: *File, isNew: bool, isDel: bool)
  requires binThere(c, s, f)
  ensures !isHdr(lineAt(c, s)) && gitEnd(lineAt(c, s)) && binStop(c, s) == s + binPartLines(f) && lineStart(c, s + binPartLines(f)) == lineStart(c, s) + len(binaryText(f)) && !fileBad(c, s, isNew, isDel)
  uses reveal:binStop reveal:fileBad
  proof use markBinary()
  proof use binThereFile(c, s, f)
  proof use binThereNone(c, s, f)
  proof use binThereData(c, s, f)
pred sameBinPart(f: *File, g: *File): bool = (f.IsBinary <==> g.IsBinary) && (f.BinaryFragment == nil <==> g.BinaryFragment == nil) && (f.ReverseBinaryFragment == nil <==> g.ReverseBinaryFragment == nil)
  | && (f.BinaryFragment != nil ==> sameBin(f.BinaryFragment, g.BinaryFragment)) && (f.ReverseBinaryFragment != nil ==> sameBin(f.ReverseBinaryFragment, g.ReverseBinaryFragment))
lemma binBack(c: []byte, s: int, f: *File, g: *File)
  requires binThere(c, s, f) && g != nil && binOf(g, c, s) && binStatus(g)
  ensures sameBinPart(f, g)
  proof use markBinary()
  proof use binThereFile(c, s, f)
  proof use binThereNone(c, s, f)
  proof use binThereData(c, s, f)
  proof use binRoundTrip(f.BinaryFragment, g.BinaryFragment, c, s+1)
  proof use binRoundTrip(f.ReverseBinaryFragment, g.ReverseBinaryFragment, c, binEnd(c, s+1))

// ---- a whole file
pred fileKept(f: *File): bool = headKept(f) && fragsKept(f.TextFragments) && fits(f.TextFragments, f.IsNew, f.IsDelete) && (len(f.TextFragments) > 0 ==> !f.IsBinary)
  | && (f.BinaryFragment != nil ==> f.IsBinary && binKept(f.BinaryFragment)) && (f.ReverseBinaryFragment != nil ==> f.BinaryFragment != nil && binKept(f.ReverseBinaryFragment))
pred tailText(f: *File): []byte = if len(f.TextFragments) > 0 then fragsText(f.TextFragments, len(f.TextFragments)) else binaryText(f)
pred tailLines(f: *File): int = if len(f.TextFragments) > 0 then fragPos(f.TextFragments, 0, len(f.TextFragments)) else binPartLines(f)
pred fileLines(f: *File): int = 1 + kNames(f) + tailLines(f)
lemma fragPosShift(fs: []*TextFragment, s: int, i: int)
  requires 0 <= i
  ensures fragPos(fs, s, i) == s + fragPos(fs, 0, i)
  decreases i
  proof use fragPosStep(fs, s, i-1)
  proof use fragPosStep(fs, 0, i-1)
  proof case i == 0
  proof use fragPosShift(fs, s, i-1)
lemma fileTextIs(f: *File)
  requires len(f.TextFragments) > 0 ==> !f.IsBinary
  ensures fileText(f) == headAll(f) ++ tailText(f)
  proof case len(f.TextFragments) > 0
lemma headPos(c: []byte, h: int, f: *File)
  requires h >= 0 && headKept(f) && textAt(c, h, headAll(f))
  ensures lineStart(c, h + 1 + kNames(f)) == lineStart(c, h) + len(headAll(f)) && kNames(f) >= 0
  proof let d = defName(c, h)
  proof let t = oldModeText(f) ++ (newModeText(f) ++ (scoreText(f) ++ (copyText(f) ++ (renameText(f) ++ (indexText(f) ++ namesText(f))))))
  proof use headTextIs(f)
  proof use textNext(c, h, gitText(f), t, h+1)
  proof use gitLine(c, h, f)
  proof use headLines(c, h+1, f, d)
  proof assert len(gitText(f) ++ t) == len(gitText(f)) + len(t)
lemma namesPlain(f: *File)
  requires headKept(f)
  ensures noNewline(qA(nameA(f))) && noNewline(qB(nameB(f)))
  proof use nameLine("a/" ++ nameA(f))
  proof use nameLine("b/" ++ nameB(f))
lemma hdrGitEnd(l: []byte)
  requires isHdr(l)
  ensures gitEnd(l)
  uses reveal:gitEnd reveal:gitEndBare
  proof assert l[0] == '@' && trimSuf(l, "\n")[0] == '@'
opaque pred fileThere(c: []byte, h: int, f: *File): bool = h >= 0 && fileKept(f) && textAt(c, h, fileText(f)) && apart(lineAt(c, h + fileLines(f)))
pred restAt(f: *File, h: int): int = h + 1 + kNames(f)
lemma fileSplit(c: []byte, h: int, f: *File)
  requires fileThere(c, h, f)
  ensures h >= 0 && fileKept(f) && textAt(c, h, headAll(f)) && textAt(c, restAt(f, h), tailText(f)) && lineStart(c, restAt(f, h)) == lineStart(c, h) + len(headAll(f)) && restAt(f, h) > h
  ensures apart(lineAt(c, restAt(f, h) + tailLines(f))) && len(fileText(f)) == len(headAll(f)) + len(tailText(f))
  uses reveal:fileThere
  proof use fileTextIs(f)
  proof use textNext(c, h, headAll(f), tailText(f), restAt(f, h))
  proof use headPos(c, h, f)
lemma fileFrags(c: []byte, h: int, f: *File)
  requires fileThere(c, h, f) && len(f.TextFragments) > 0
  ensures fragsThere(c, restAt(f, h), f.TextFragments)
  uses reveal:fragsThere
  proof use fileSplit(c, h, f)
  proof use fragPosShift(f.TextFragments, restAt(f, h), len(f.TextFragments))
lemma fileBin(c: []byte, h: int, f: *File)
  requires fileThere(c, h, f) && len(f.TextFragments) == 0 && f.IsBinary
  ensures binThere(c, restAt(f, h), f)
  uses reveal:binThere
  proof use fileSplit(c, h, f)
  proof use namesPlain(f)
// where the parser finds the end of the file, and that it accepts what is written
opaque pred restFine(c: []byte, s: int, n: int, isNew: bool, isDel: bool): bool = gitEnd(lineAt(c, s)) && contentEnd(c, s) == n && !fileBad(c, s, isNew, isDel)
lemma restOfFrags(c: []byte, h: int, f: *File)
  requires fileThere(c, h, f) && len(f.TextFragments) > 0
  ensures restFine(c, restAt(f, h), h + fileLines(f), f.IsNew, f.IsDelete) && lineStart(c, h + fileLines(f)) == lineStart(c, h) + len(fileText(f))
  uses reveal:restFine reveal:fileBad
  proof let s = restAt(f, h)
  proof let fs = f.TextFragments
  proof use fileSplit(c, h, f)
  proof use fileFrags(c, h, f)
  proof use fragsTotal(c, s, fs)
  proof use fragPosShift(fs, s, len(fs))
  proof use fragPosStep(fs, s, 0)
  proof use fragsFine(c, s, fs, 0, f.IsNew, f.IsDelete)
  proof use hdrGitEnd(lineAt(c, s))
  proof use contentEndIs(c, s)
lemma restOfBin(c: []byte, h: int, f: *File)
  requires fileThere(c, h, f) && len(f.TextFragments) == 0 && f.IsBinary
  ensures restFine(c, restAt(f, h), h + fileLines(f), f.IsNew, f.IsDelete) && lineStart(c, h + fileLines(f)) == lineStart(c, h) + len(fileText(f))
  uses reveal:restFine
  proof let s = restAt(f, h)
  proof use fileSplit(c, h, f)
  proof use fileBin(c, h, f)
  proof use binTotal(c, s, f, f.IsNew, f.IsDelete)
  proof use contentEndIs(c, s)
lemma dataMark(l: []byte)
  ensures hasBinData(l) ==> isBinMark(l)
  uses reveal:hasBinData reveal:isBinMark
lemma restOfNone(c: []byte, h: int, f: *File)
  requires fileThere(c, h, f) && len(f.TextFragments) == 0 && !f.IsBinary
  ensures restFine(c, restAt(f, h), h + fileLines(f), f.IsNew, f.IsDelete) && lineStart(c, h + fileLines(f)) == lineStart(c, h) + len(fileText(f))
  uses reveal:restFine reveal:fileBad reveal:binStop
  proof let s = restAt(f, h)
  proof use fileSplit(c, h, f)
  proof use contentEndIs(c, s)
  proof use dataMark(lineAt(c, s))
lemma fileFine(c: []byte, h: int, f: *File)
  requires fileThere(c, h, f)
  ensures !refused(c, h) && headEnd(c, h) == restAt(f, h) && contentEnd(c, headEnd(c, h)) == h + fileLines(f) && lineStart(c, h + fileLines(f)) == lineStart(c, h) + len(fileText(f)) && headFields(c, h) == headVal(f) && isGitHead(lineAt(c, h))
  uses reveal:refused reveal:restFine
  proof use fileSplit(c, h, f)
  proof use restOfFrags(c, h, f)
  proof use restOfBin(c, h, f)
  proof use restOfNone(c, h, f)
  proof use headRoundTrip(c, h, f)
pred sameHeader(f: *File, g: *File): bool = f.OldName == g.OldName && f.NewName == g.NewName && (f.IsNew <==> g.IsNew) && (f.IsDelete <==> g.IsDelete) && (f.IsCopy <==> g.IsCopy) && (f.IsRename <==> g.IsRename)
  | && f.OldMode == g.OldMode && f.NewMode == g.NewMode && f.OldOIDPrefix == g.OldOIDPrefix && f.NewOIDPrefix == g.NewOIDPrefix && f.Score == g.Score
pred sameFile(f: *File, g: *File): bool = sameHeader(f, g) && sameFrags(f.TextFragments, g.TextFragments) && sameBinPart(f, g)
pred fileRead(g: *File, c: []byte, h: int): bool = g != nil && binStatus(g) && fragsRead(c, headEnd(c, h), g) && binaryOf(g, c, headEnd(c, h)) && headOf(g, c, h)
lemma headBack(c: []byte, h: int, f: *File, g: *File)
  requires fileThere(c, h, f) && g != nil && headOf(g, c, h)
  ensures sameHeader(f, g)
  proof use fileFine(c, h, f)
lemma backFrags(c: []byte, h: int, f: *File, g: *File)
  requires fileThere(c, h, f) && fileRead(g, c, h) && len(f.TextFragments) > 0
  ensures sameFrags(f.TextFragments, g.TextFragments) && sameBinPart(f, g)
  proof use fileFine(c, h, f)
  proof use fileSplit(c, h, f)
  proof use fileFrags(c, h, f)
  proof use fragsCount(c, restAt(f, h), f.TextFragments, g)
  proof use fragsBack(c, restAt(f, h), f.TextFragments, g, len(f.TextFragments))
lemma backBin(c: []byte, h: int, f: *File, g: *File)
  requires fileThere(c, h, f) && fileRead(g, c, h) && len(f.TextFragments) == 0 && f.IsBinary
  ensures sameFrags(f.TextFragments, g.TextFragments) && sameBinPart(f, g)
  proof use fileFine(c, h, f)
  proof use fileBin(c, h, f)
  proof use binTotal(c, restAt(f, h), f, f.IsNew, f.IsDelete)
  proof use binBack(c, restAt(f, h), f, g)
lemma backNone(c: []byte, h: int, f: *File, g: *File)
  requires fileThere(c, h, f) && fileRead(g, c, h) && len(f.TextFragments) == 0 && !f.IsBinary
  ensures sameFrags(f.TextFragments, g.TextFragments) && sameBinPart(f, g)
  proof use fileFine(c, h, f)
  proof use fileSplit(c, h, f)
  proof use dataMark(lineAt(c, restAt(f, h)))
lemma fileBack(c: []byte, h: int, f: *File, g: *File)
  requires fileThere(c, h, f) && fileRead(g, c, h)
  ensures sameFile(f, g)
  proof use headBack(c, h, f, g)
  proof use backFrags(c, h, f, g)
  proof use backBin(c, h, f, g)
  proof use backNone(c, h, f, g)

// ---- files one after the other
opaque pred filesText(fs: []*File, i: int): []byte = if i <= 0 then empty() else filesText(fs, i-1) ++ fileText(fs[i-1])
// the line where the i-th file is written
opaque pred filePos(fs: []*File, i: int): int = if i <= 0 then 0 else filePos(fs, i-1) + fileLines(fs[i-1])
lemma filesStep(fs: []*File, i: int)
  ensures filesText(fs, 0) == empty() && filePos(fs, 0) == 0
  ensures i >= 0 ==> filesText(fs, i+1) == filesText(fs, i) ++ fileText(fs[i]) && filePos(fs, i+1) == filePos(fs, i) + fileLines(fs[i])
  uses reveal:filesText reveal:filePos
lemma gitApart(l: []byte)
  requires isGitHead(l)
  ensures apart(l) && len(l) > 0
  uses reveal:isGitHead reveal:gitEnd reveal:gitEndBare reveal:isBinMark reveal:isBinHdr
  proof assert l[0] == 'd' && l[1] == 'i' && l[2] == 'f' && len(trimSuf(l, "\n")) >= 3
  proof let b = trimSuf(l, "\n")
  proof assert b[0] == 'd' && b[1] == 'i' && b[2] == 'f'
  proof let e = binBare(l)
  proof assert e[0] == 'd' && e[1] == 'i' && e[2] == 'f'
  proof let k = binSep(l)
  proof use findBounds(e, " ", 0)
  proof assert gitEnd(l) && !isMarker(l) && !isHdr(l)
  proof assert !isBinMark(l)
  proof assert k < 5 || e[:k][1] == 'i'
  proof assert k < 0 || len(e[:k]) == k
  proof assert k != 5 || len(e[:k]) == 5
  proof assert k < 0 || !(e[:k] == "delta") && !(e[:k] == "literal")
lemma emptyApart(l: []byte)
  requires len(l) == 0
  ensures apart(l) && !isGitHead(l) && !hdrOK(l)
  uses reveal:isGitHead reveal:isBinMark reveal:isBinHdr
  proof use gitEndEmpty(l)
  proof use hdrOKIs(l)
lemma fileSize(c: []byte, h: int, f: *File)
  requires h >= 0 && fileKept(f) && textAt(c, h, fileText(f))
  ensures lineStart(c, h + fileLines(f)) == lineStart(c, h) + len(fileText(f)) && isGitHead(lineAt(c, h)) && h + fileLines(f) > h && len(fileText(f)) > 0
  proof let s = restAt(f, h)
  proof let t = oldModeText(f) ++ (newModeText(f) ++ (scoreText(f) ++ (copyText(f) ++ (renameText(f) ++ (indexText(f) ++ namesText(f))))))
  proof use fileTextIs(f)
  proof use headTextIs(f)
  proof use textNext(c, h, headAll(f), tailText(f), s)
  proof use textNext(c, h, gitText(f), t, h+1)
  proof use gitLine(c, h, f)
  proof use headPos(c, h, f)
  proof use fragsWritten(c, s, f.TextFragments, len(f.TextFragments))
  proof use fragPosShift(f.TextFragments, s, len(f.TextFragments))
  proof use binOneThere(c, s, f)
  proof use binTwoThere(c, s, f)
  proof use namesPlain(f)
  proof use differIs(f)
  proof use differFile(c, s, f)
  proof assert textAt(c, s, tailText(f)) && len(fileText(f)) == len(headAll(f)) + len(tailText(f)) && len(gitText(f)) > 0
  proof case len(f.TextFragments) > 0
  proof case f.BinaryFragment == nil
  proof case f.ReverseBinaryFragment == nil
pred filesKept(fs: []*File): bool = forall i {fs[i]} :: 0 <= i < len(fs) ==> fileKept(fs[i])
lemma filesAt(c: []byte, fs: []*File, i: int)
  requires 0 <= i <= len(fs) && filesKept(fs) && textAt(c, 0, filesText(fs, i))
  ensures lineStart(c, filePos(fs, i)) == len(filesText(fs, i)) && filePos(fs, i) >= 0
  ensures i > 0 ==> textAt(c, 0, filesText(fs, i-1)) && textAt(c, filePos(fs, i-1), fileText(fs[i-1])) && isGitHead(lineAt(c, filePos(fs, i-1))) && filePos(fs, i-1) < filePos(fs, i) && len(filesText(fs, i-1)) < len(filesText(fs, i))
  decreases i
  proof use filesStep(fs, i-1)
  proof use lineStartStep(c, 0)
  proof case i == 0
  proof use textNext(c, 0, filesText(fs, i-1), fileText(fs[i-1]), filePos(fs, i-1))
  proof use filesAt(c, fs, i-1)
  proof use fileSize(c, filePos(fs, i-1), fs[i-1])
lemma filesPrefix(c: []byte, fs: []*File, i: int, n: int)
  requires 0 <= i <= n && n <= len(fs) && filesKept(fs) && textAt(c, 0, filesText(fs, n))
  ensures textAt(c, 0, filesText(fs, i))
  decreases n - i
  proof case i == n
  proof use filesAt(c, fs, n)
  proof use filesPrefix(c, fs, i, n-1)
// the content is the files
opaque pred allWritten(c: []byte, fs: []*File): bool = filesKept(fs) && c == filesText(fs, len(fs))
lemma writtenAt(c: []byte, fs: []*File, i: int)
  requires allWritten(c, fs) && 0 <= i <= len(fs)
  ensures filePos(fs, i) >= 0 && lineStart(c, filePos(fs, i)) == len(filesText(fs, i))
  ensures i == len(fs) ==> lineStart(c, filePos(fs, i)) >= len(c) && len(lineAt(c, filePos(fs, i))) == 0
  ensures i < len(fs) ==> isGitHead(lineAt(c, filePos(fs, i))) && textAt(c, filePos(fs, i), fileText(fs[i])) && fileKept(fs[i]) && lineStart(c, filePos(fs, i)) < len(c)
  uses reveal:allWritten
  proof use lineStartStep(c, 0)
  proof assert textAt(c, 0, filesText(fs, len(fs)))
  proof use filesPrefix(c, fs, i, len(fs))
  proof use filesPrefix(c, fs, i+1, len(fs))
  proof use filesAt(c, fs, i)
  proof use filesAt(c, fs, i+1)
  proof use lineStartBounds(c, filePos(fs, i))
  proof use lineStartBounds(c, filePos(fs, i+1))
lemma writtenThere(c: []byte, fs: []*File, i: int)
  requires allWritten(c, fs) && 0 <= i < len(fs)
  ensures fileThere(c, filePos(fs, i), fs[i])
  uses reveal:fileThere
  proof use filesStep(fs, i)
  proof use writtenAt(c, fs, i)
  proof use writtenAt(c, fs, i+1)
  proof use gitApart(lineAt(c, filePos(fs, i+1)))
  proof use emptyApart(lineAt(c, filePos(fs, i+1)))
lemma writtenFollow(c: []byte, fs: []*File, i: int)
  requires allWritten(c, fs) && 0 <= i <= len(fs)
  ensures fileLine(c, i) == filePos(fs, i)
  decreases i
  proof use writtenAt(c, fs, i)
  proof use firstHeadStep(c, filePos(fs, i))
  proof use fileLineStep(c, i-1)
  proof use fileLineStep(c, 0)
  proof use filesStep(fs, i-1)
  proof case i == 0
  proof use writtenFollow(c, fs, i-1)
  proof use writtenThere(c, fs, i-1)
  proof use fileFine(c, filePos(fs, i-1), fs[i-1])
// what Parse returns for content c
pred parsedFiles(c: []byte, gs: []*File, failed: bool): bool = (forall i {gs[i]} :: 0 <= i < len(gs) ==> fileRead(gs[i], c, fileLine(c, i)))
  | && (failed ==> refused(c, fileLine(c, len(gs)))) && (!failed ==> lineStart(c, fileLine(c, len(gs))) >= len(c))
opaque pred isParsed(c: []byte, gs: []*File, failed: bool): bool = parsedFiles(c, gs, failed)
lemma parsedAt(c: []byte, gs: []*File, failed: bool, i: int)
  requires isParsed(c, gs, failed) && 0 <= i < len(gs)
  ensures fileRead(gs[i], c, fileLine(c, i))
  uses reveal:isParsed
lemma parsedEnd(c: []byte, gs: []*File, failed: bool)
  requires isParsed(c, gs, failed)
  ensures failed ==> refused(c, fileLine(c, len(gs)))
  ensures !failed ==> lineStart(c, fileLine(c, len(gs))) >= len(c)
  uses reveal:isParsed
lemma notRefused(c: []byte, h: int)
  requires len(lineAt(c, h)) == 0
  ensures !refused(c, h) && !isHead(c, h)
  uses reveal:refused reveal:isHead reveal:isTradHead
  proof use emptyApart(lineAt(c, h))
lemma noMore(c: []byte, h: int, g: *File)
  requires headOf(g, c, h)
  ensures len(lineAt(c, h)) > 0
  proof use notRefused(c, h)
lemma sameCount(c: []byte, fs: []*File, gs: []*File, failed: bool)
  requires allWritten(c, fs) && isParsed(c, gs, failed)
  ensures !failed && len(gs) == len(fs)
  proof let n = len(fs)
  proof let m = len(gs)
  proof use parsedAt(c, gs, failed, n)
  proof use writtenAt(c, fs, n)
  proof use writtenFollow(c, fs, n)
  proof use notRefused(c, filePos(fs, n))
  proof use noMore(c, filePos(fs, n), gs[n])
  proof assert m <= n
  proof use parsedEnd(c, gs, failed)
  proof use writtenAt(c, fs, m)
  proof use writtenFollow(c, fs, m)
  proof use writtenThere(c, fs, m)
  proof use fileFine(c, filePos(fs, m), fs[m])
lemma sameAt(c: []byte, fs: []*File, gs: []*File, failed: bool, i: int)
  requires allWritten(c, fs) && isParsed(c, gs, failed) && 0 <= i < len(fs)
  ensures sameFile(fs[i], gs[i])
  proof use sameCount(c, fs, gs, failed)
  proof use writtenFollow(c, fs, i)
  proof use writtenThere(c, fs, i)
  proof use parsedAt(c, gs, failed, i)
  proof use fileBack(c, filePos(fs, i), fs[i], gs[i])

pred parsedInto(c: []byte, gs: []*File, pre: string, failed: bool): bool = parsedFiles(c, gs, failed) && (!failed ==> pre == c[:lineStart(c, fileLine(c, 0))])
// parsing what formatting the files made gives the same files, and nothing else
lemma filesRoundTrip(c: []byte, fs: []*File, gs: []*File, pre: string, failed: bool, i: int)
  requires filesKept(fs) && c == filesText(fs, len(fs)) && parsedInto(c, gs, pre, failed)
  ensures !failed && len(gs) == len(fs) && pre == "" && (0 <= i < len(fs) ==> sameFile(fs[i], gs[i]))
  uses reveal:allWritten reveal:isParsed
  proof use sameCount(c, fs, gs, failed)
  proof use sameAt(c, fs, gs, failed, i)
  proof use writtenFollow(c, fs, 0)
  proof use filesStep(fs, 0)
  proof use lineStartStep(c, 0)

prop C21 (*File).String Parse lemma=filesRoundTrip with=head,files
