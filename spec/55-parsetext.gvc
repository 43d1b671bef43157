// Parsing text fragments.

// the range "pos" or "pos,count"
pred rComma(s: []byte): int = find(s, ",", 0)
opaque pred rOK(s: []byte): bool = if rComma(s) < 0 then numOK(10, 64, s) else numOK(10, 64, s[:rComma(s)]) && numOK(10, 64, s[rComma(s)+1:])
opaque pred rPos(s: []byte): int = if rComma(s) < 0 then numVal(10, s) else numVal(10, s[:rComma(s)])
opaque pred rCnt(s: []byte): int = if rComma(s) < 0 then 1 else numVal(10, s[rComma(s)+1:])

// the header line "@@ -old +new @@ comment"
pred isHdr(l: []byte): bool = hasPre(l, "@@ -")
pred hdrEnd(l: []byte): int = find(l, " @@", 0)
pred hdrMid(l: []byte): []byte = l[4:hdrEnd(l)]
pred hdrSep(l: []byte): int = find(hdrMid(l), " +", 0)
opaque pred hdrOK(l: []byte): bool = isHdr(l) && hdrEnd(l) >= 0 && hdrSep(l) >= 0 && find(hdrMid(l), " +", hdrSep(l)+2) < 0
  | && rOK(hdrMid(l)[:hdrSep(l)]) && rOK(hdrMid(l)[hdrSep(l)+2:])
opaque pred hdrOldPos(l: []byte): int = rPos(hdrMid(l)[:hdrSep(l)])
opaque pred hdrOldCnt(l: []byte): int = rCnt(hdrMid(l)[:hdrSep(l)])
opaque pred hdrNewPos(l: []byte): int = rPos(hdrMid(l)[hdrSep(l)+2:])
opaque pred hdrNewCnt(l: []byte): int = rCnt(hdrMid(l)[hdrSep(l)+2:])
opaque pred hdrComment(l: []byte): []byte = trimmed(l[hdrEnd(l)+3:])

func parseRange(s) (start, end, err)
  allocates
  uses findBounds reveal:rOK reveal:rPos reveal:rCnt
  ensures[content] err == nil <==> rOK(s)
  ensures[content] err == nil ==> start == rPos(s)
  ensures err == nil ==> end == rCnt(s)
  ensures err != io.EOF

// header fields of a parsed fragment
pred hdrOf(f: *TextFragment, l: []byte): bool = f.OldPosition == hdrOldPos(l) && f.OldLines == hdrOldCnt(l) && f.NewPosition == hdrNewPos(l) && f.NewLines == hdrNewCnt(l) && f.Comment == hdrComment(l)
pred noLines(f: *TextFragment): bool = len(f.Lines) == 0 && f.LinesAdded == 0 && f.LinesDeleted == 0 && f.LeadingContext == 0 && f.TrailingContext == 0

func (*parser).ParseTextFragmentHeader() (f, err)
  requires pInv(recv)
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses findBounds reveal:hdrOK reveal:hdrOldPos reveal:hdrOldCnt reveal:hdrNewPos reveal:hdrNewCnt reveal:hdrComment
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures f != nil ==> isHdr(old(recv.lines[0]))
  ensures[content] err == nil && f == nil ==> !isHdr(old(recv.lines[0]))
  ensures[content] err == nil && f != nil ==> hdrOK(old(recv.lines[0])) && hdrOf(f, old(recv.lines[0]))
  ensures err == nil && f != nil ==> fresh(f) && noLines(f)
  ensures err == nil && f != nil ==> pInv(recv) && recv.lineno == old(recv.lineno) + 1
  ensures f != nil ==> err == nil
  ensures[content] isHdr(old(recv.lines[0])) && err == nil ==> f != nil
  ensures[content] err != nil ==> isHdr(old(recv.lines[0]))
  ensures[content] err != nil && !hdrOK(old(recv.lines[0])) || err == nil && f == nil ==> pInv(recv) && recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof) && iofail == old(iofail)
  ensures[content] err != nil && hdrOK(old(recv.lines[0])) ==> pBad(recv)
  ensures err == nil && f == nil ==> pInv(recv) && recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof)
  ensures[io] err == nil ==> iofail == old(iofail)
  ensures[io] err != nil ==> pBad(recv) || iofail == old(iofail)
  ensures err != nil ==> pBad(recv) || pInv(recv) && recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof)
  ensures err != io.EOF

// body lines
pred isMarker(l: []byte): bool = len(l) >= 12 && l[0] == '\\' && l[1] == ' '
pred isOpLine(l: []byte): bool = len(l) > 0 && (l[0] == ' ' || l[0] == '\n' || l[0] == '-' || l[0] == '+')
pred lineOp(l: []byte): int = if l[0] == '-' then 1 else if l[0] == '+' then 2 else 0
pred lineText(l: []byte): []byte = if l[0] == '\n' then "\n" else l[1:]
pred lineOf(l: []byte): Line = mk(Line, lineOp(l), lineText(l))
opaque pred stripLast(ls: []Line): []Line = if len(ls) == 0 then ls else upd(ls, len(ls)-1, mk(Line, ls[len(ls)-1].Op, trimSuf(ls[len(ls)-1].Line, "\n")))
// the lines that m input lines from line k on stand for
pred plines(c: []byte, k: int, m: int): []Line = if m <= 0 then empty(Line) else if isMarker(lineAt(c, k+m-1)) then stripLast(plines(c, k, m-1)) else plines(c, k, m-1) ++ unit(lineOf(lineAt(c, k+m-1)))
// the counts of all lines
opaque pred nOld(ls: []Line): int = cntOld(ls, len(ls))
opaque pred nNew(ls: []Line): int = cntNew(ls, len(ls))
opaque pred nAdd(ls: []Line): int = cntAdd(ls, len(ls))
opaque pred nDel(ls: []Line): int = cntDel(ls, len(ls))
opaque pred nLead(ls: []Line): int = cntLead(ls, len(ls))
opaque pred nTrail(ls: []Line): int = cntTrail(ls, len(ls))

lemma cntSame(a: []Line, b: []Line, i: int)
  requires i <= len(a) && i <= len(b) && (forall j {a[j]} {b[j]} :: 0 <= j < i ==> a[j].Op == b[j].Op)
  ensures cntOld(a, i) == cntOld(b, i) && cntNew(a, i) == cntNew(b, i) && cntAdd(a, i) == cntAdd(b, i) && cntDel(a, i) == cntDel(b, i) && cntLead(a, i) == cntLead(b, i) && cntTrail(a, i) == cntTrail(b, i)
  decreases max(i, 0)
  proof case i <= 0
  proof use cntSame(a, b, i-1)
  proof assert i <= 0 || a[i-1].Op == b[i-1].Op

lemma cntBounds(a: []Line, i: int)
  requires 0 <= i
  ensures 0 <= cntAdd(a, i) <= i && 0 <= cntDel(a, i) <= i && 0 <= cntOld(a, i) <= i && 0 <= cntNew(a, i) <= i && 0 <= cntLead(a, i) <= i && 0 <= cntTrail(a, i) <= i
  decreases i
  proof case i <= 0
  proof use cntBounds(a, i-1)

lemma cntReveal(ls: []Line)
  ensures nOld(ls) == cntOld(ls, len(ls)) && nNew(ls) == cntNew(ls, len(ls)) && nAdd(ls) == cntAdd(ls, len(ls)) && nDel(ls) == cntDel(ls, len(ls)) && nLead(ls) == cntLead(ls, len(ls)) && nTrail(ls) == cntTrail(ls, len(ls))
  uses reveal:nOld reveal:nNew reveal:nAdd reveal:nDel reveal:nLead reveal:nTrail

lemma nBounds(ls: []Line)
  ensures 0 <= nOld(ls) <= len(ls) && 0 <= nNew(ls) <= len(ls) && 0 <= nAdd(ls) <= len(ls) && 0 <= nDel(ls) <= len(ls) && 0 <= nLead(ls) <= len(ls) && 0 <= nTrail(ls) <= len(ls)
  trigger nOld(ls)
  trigger nAdd(ls)
  proof use cntBounds(ls, len(ls))
  proof use cntReveal(ls)

lemma nPush(a: []Line, l: Line)
  ensures nOld(a ++ unit(l)) == nOld(a) + (if isOldOp(l.Op) then 1 else 0) && nNew(a ++ unit(l)) == nNew(a) + (if isNewOp(l.Op) then 1 else 0)
  ensures nAdd(a ++ unit(l)) == nAdd(a) + (if l.Op == 2 then 1 else 0) && nDel(a ++ unit(l)) == nDel(a) + (if l.Op == 1 then 1 else 0)
  ensures nLead(a ++ unit(l)) == nLead(a) + (if l.Op == 0 && nAdd(a) == 0 && nDel(a) == 0 then 1 else 0)
  ensures nTrail(a ++ unit(l)) == (if l.Op != 0 || nAdd(a) == 0 && nDel(a) == 0 then 0 else nTrail(a) + 1)
  trigger a ++ unit(l)
  proof let b = a ++ unit(l)
  proof use cntSame(b, a, len(a))
  proof use cntReveal(a)
  proof use cntReveal(b)
  proof assert len(b) == len(a) + 1 && b[len(a)] == l

lemma nTrailZero(ls: []Line, i: int)
  requires cntAdd(ls, i) == 0 && cntDel(ls, i) == 0
  ensures cntTrail(ls, i) == 0
  decreases max(i, 0)
  proof case i <= 0
  proof use cntBounds(ls, i-1)

lemma nTrail0(ls: []Line)
  ensures nAdd(ls) == 0 && nDel(ls) == 0 ==> nTrail(ls) == 0
  trigger nTrail(ls)
  proof use cntReveal(ls)
  proof case nAdd(ls) == 0 && nDel(ls) == 0
  proof use nTrailZero(ls, len(ls))

lemma nStrip(a: []Line)
  ensures len(stripLast(a)) == len(a)
  ensures nOld(stripLast(a)) == nOld(a) && nNew(stripLast(a)) == nNew(a) && nAdd(stripLast(a)) == nAdd(a) && nDel(stripLast(a)) == nDel(a) && nLead(stripLast(a)) == nLead(a) && nTrail(stripLast(a)) == nTrail(a)
  uses reveal:stripLast
  trigger stripLast(a)
  proof use cntSame(stripLast(a), a, len(a))
  proof use cntReveal(a)
  proof use cntReveal(stripLast(a))

lemma stripOps(a: []Line, j: int)
  requires 0 <= j < len(a)
  ensures stripLast(a)[j].Op == a[j].Op
  uses reveal:stripLast
  trigger stripLast(a)[j]

opaque pred okOps(ls: []Line): bool = knownOps(ls)

lemma okStrip(a: []Line)
  ensures okOps(a) ==> okOps(stripLast(a))
  trigger stripLast(a)
  uses stripOps nStrip reveal:okOps reveal:stripLast

lemma okPush(a: []Line, l: Line)
  ensures okOps(a ++ unit(l)) <==> okOps(a) && 0 <= l.Op <= 2
  trigger a ++ unit(l)
  uses reveal:okOps
  proof let b = a ++ unit(l)
  proof assert b[len(a)] == l
  proof assert okOps(b) ==> (forall j {a[j]} :: 0 <= j < len(a) ==> b[j] == a[j] && 0 <= a[j].Op <= 2)

lemma okEmpty(a: []Line)
  ensures len(a) == 0 ==> okOps(a)
  trigger okOps(a)
  uses reveal:okOps

lemma okKnown(f: *TextFragment)
  requires f != nil
  ensures okOps(f.Lines) <==> knownOps(f.Lines)
  uses reveal:okOps

lemma nEmpty(a: []Line)
  ensures len(a) == 0 ==> nOld(a) == 0 && nNew(a) == 0 && nAdd(a) == 0 && nDel(a) == 0 && nLead(a) == 0 && nTrail(a) == 0
  trigger nOld(a)
  proof use cntReveal(a)

group counts nBounds nPush nTrail0 nStrip nEmpty okStrip okPush okEmpty

// the reported counts are those of the lines
pred consistent(f: *TextFragment): bool = f.OldLines == nOld(f.Lines) && f.NewLines == nNew(f.Lines) && f.LeadingContext == nLead(f.Lines) && f.TrailingContext == nTrail(f.Lines) && f.LinesAdded == nAdd(f.Lines) && f.LinesDeleted == nDel(f.Lines)

lemma consistentCounts(f: *TextFragment)
  requires f != nil
  ensures consistent(f) <==> countsOK(f)
  proof use cntReveal(f.Lines)

// the declared counts are not exhausted
pred more(ls: []Line, o: int, n: int): bool = nOld(ls) < o || nNew(ls) < n
pred isBodyLine(l: []byte): bool = isMarker(l) || isOpLine(l)
// how many input lines it takes to exhaust them; -1 if an invalid line or the end of the input comes first
opaque pred chunkRun(c: []byte, k: int, o: int, n: int, m: int): int = if !more(plines(c, k, m), o, n) then m else if isBodyLine(lineAt(c, k+m)) then chunkRun(c, k, o, n, m+1) else 0-1
opaque pred chunkBody(c: []byte, k: int, o: int, n: int): int = chunkRun(c, k, o, n, 0)
// the same, with a final marker
opaque pred chunkLen(c: []byte, k: int, o: int, n: int): int = if isMarker(lineAt(c, k + chunkBody(c, k, o, n))) then chunkBody(c, k, o, n) + 1 else chunkBody(c, k, o, n)
pred exact(ls: []Line, o: int, n: int): bool = nOld(ls) == o && nNew(ls) == n && nAdd(ls) + nDel(ls) > 0
opaque pred chunkOK(c: []byte, k: int, o: int, n: int): bool = chunkBody(c, k, o, n) >= 0 && exact(plines(c, k, chunkBody(c, k, o, n)), o, n)

lemma runCases(c: []byte, k: int, o: int, n: int, m: int)
  ensures !more(plines(c, k, m), o, n) ==> chunkRun(c, k, o, n, m) == m
  ensures more(plines(c, k, m), o, n) && isBodyLine(lineAt(c, k+m)) ==> chunkRun(c, k, o, n, m) == chunkRun(c, k, o, n, m+1)
  ensures more(plines(c, k, m), o, n) && !isBodyLine(lineAt(c, k+m)) ==> chunkRun(c, k, o, n, m) == 0-1
  uses reveal:chunkRun

lemma plinesStep(c: []byte, k: int, m: int)
  requires m >= 0
  ensures plines(c, k, m+1) == (if isMarker(lineAt(c, k+m)) then stripLast(plines(c, k, m)) else plines(c, k, m) ++ unit(lineOf(lineAt(c, k+m))))

lemma chunkDef(c: []byte, k: int, o: int, n: int, m: int)
  requires chunkBody(c, k, o, n) == m && m >= 0
  ensures chunkLen(c, k, o, n) == (if isMarker(lineAt(c, k+m)) then m+1 else m)
  ensures chunkOK(c, k, o, n) <==> exact(plines(c, k, m), o, n)
  uses reveal:chunkLen reveal:chunkOK

lemma chunkBodyIs(c: []byte, k: int, o: int, n: int)
  ensures chunkBody(c, k, o, n) == chunkRun(c, k, o, n, 0)
  ensures chunkBody(c, k, o, n) < 0 ==> !chunkOK(c, k, o, n)
  uses reveal:chunkBody reveal:chunkOK

lemma chunkOKDef(c: []byte, k: int, o: int, n: int)
  ensures chunkOK(c, k, o, n) <==> chunkBody(c, k, o, n) >= 0 && exact(plines(c, k, chunkBody(c, k, o, n)), o, n)
  ensures chunkOK(c, k, o, n) ==> o >= 0 && n >= 0
  uses reveal:chunkOK group:counts

func removeLastNewline(frag) ()
  requires frag != nil
  modifies frag.Lines
  uses reveal:stripLast
  ensures frag.Lines == stripLast(old(frag.Lines))

func isNoNewlineMarker(s) (r)
  ensures r <==> isMarker(s)

func (*parser).ParseTextChunk(frag) (err)
  requires pInv(recv) && frag != nil && noLines(frag)
  modifies frag.Lines, frag.LinesAdded, frag.LinesDeleted, frag.LeadingContext, frag.TrailingContext
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  wraps
  uses group:lines group:counts
  entry[content] let k0 = cur(recv)
  entry[content] use chunkOKDef(pin(recv), cur(recv), frag.OldLines, frag.NewLines)
  entry[content] use chunkBodyIs(pin(recv), cur(recv), frag.OldLines, frag.NewLines)
  entry[content] use runCases(pin(recv), cur(recv), frag.OldLines, frag.NewLines, 0)
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err == nil ==> pInv(recv)
  ensures[content] err == nil ==> chunkOK(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines)
  ensures err == nil ==> cur(recv) >= old(cur(recv))
  ensures[content] err == nil ==> cur(recv) == old(cur(recv)) + chunkLen(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines)
  ensures[content] err == nil ==> frag.Lines == plines(pin(recv), old(cur(recv)), chunkLen(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines))
  ensures[self] err == nil ==> consistent(frag)
  ensures[self] err == nil ==> okOps(frag.Lines)
  ensures[self] err == nil ==> frag.LinesAdded + frag.LinesDeleted > 0
  ensures[content] err != nil && !iofail ==> !chunkOK(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines)
  ensures err != io.EOF
  local oldLines int64
  local newLines int64
  loop 1
    invariant pInv(recv) && !recv.eof
    invariant[io] iofail == old(iofail)
    invariant cur(recv) >= old(cur(recv)) && pin(recv) == old(pin(recv))
    invariant[content] frag.Lines == plines(pin(recv), old(cur(recv)), cur(recv) - old(cur(recv)))
    invariant[self,content] if frag.OldLines >= 0 then oldLines == frag.OldLines - nOld(frag.Lines) else oldLines < 0 || oldLines >= 9223372036854775807 - nOld(frag.Lines)
    invariant[self,content] if frag.NewLines >= 0 then newLines == frag.NewLines - nNew(frag.Lines) else newLines < 0 || newLines >= 9223372036854775807 - nNew(frag.Lines)
    invariant[self,content] frag.LinesAdded == nAdd(frag.Lines) && frag.LinesDeleted == nDel(frag.Lines)
    invariant[self] frag.LeadingContext == nLead(frag.Lines)
    invariant[self] frag.TrailingContext == nTrail(frag.Lines)
    invariant[self] okOps(frag.Lines)
    invariant[content] frag.OldLines >= 0 && frag.NewLines >= 0 ==> chunkBody(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines) == chunkRun(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines, cur(recv) - old(cur(recv)))
    body[content] use runCases(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines, cur(recv) - old(cur(recv)))
    post[content] use runCases(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines, cur(recv) - old(cur(recv)))
    body[content] assert more(frag.Lines, frag.OldLines, frag.NewLines) || frag.OldLines < 0 || frag.NewLines < 0
    post[content] let body = cur(recv) - k0
    post[content] use chunkDef(pin(recv), k0, frag.OldLines, frag.NewLines, body)
    post[content] use plinesStep(pin(recv), k0, body)
    post[self,content] assert oldLines == 0 ==> frag.OldLines == nOld(frag.Lines)
    post[self,content] assert newLines == 0 ==> frag.NewLines == nNew(frag.Lines)
    post[content] assert oldLines == 0 && newLines == 0 ==> chunkBody(pin(recv), old(cur(recv)), frag.OldLines, frag.NewLines) == cur(recv) - old(cur(recv))
    post[content] let clen = chunkLen(pin(recv), k0, frag.OldLines, frag.NewLines)
    post[content] assert oldLines == 0 && newLines == 0 ==> clen == (if isMarker(recv.lines[0]) then body+1 else body)
    post[content] assert plines(pin(recv), k0, body) == frag.Lines && (isMarker(recv.lines[0]) ==> plines(pin(recv), k0, body+1) == stripLast(frag.Lines))
    decreases len(pin(recv)) - lineStart(pin(recv), cur(recv))

prop T2 lemma=consistentCounts lemma=okKnown (*parser).ParseTextFragmentHeader (*parser).ParseTextChunk kinds=all
