// Formatting text fragments, and parsing what was formatted.

pred opStr(op: int): []byte = if op == 0 then " " else if op == 1 then "-" else if op == 2 then "+" else "?"
pred noEOL(t: []byte): bool = len(t) == 0 || t[len(t)-1] != '\n'
pred eolText(t: []byte): []byte = if noEOL(t) then t ++ "\n" else t
pred markText(): []byte = "\\ No newline at end of file\n"
pred lnText(l: Line): []byte = opStr(l.Op) ++ l.Line ++ (if noEOL(l.Line) then "\n\\ No newline at end of file\n" else empty())
pred fmtLines(ls: []Line, i: int): []byte = if i <= 0 then empty() else fmtLines(ls, i-1) ++ lnText(ls[i-1])
pred fragText(f: *TextFragment): []byte = hdrText(f) ++ "\n" ++ fmtLines(f.Lines, len(f.Lines))

func (*formatter).FormatTextFragment(f) ()
  requires fmOK(recv) && f != nil
  modifies out(recv.w)
  ensures out(recv.w) == old(out(recv.w)) ++ fragText(f)
  loop 1
    pre let h0 = out(recv.w)
    pre assert h0 == old(out(recv.w)) ++ hdrText(f) ++ "\n"
    invariant out(recv.w) == h0 ++ fmtLines(f.Lines, $i)
    body let o1 = out(recv.w)
    end assert out(recv.w) == o1 ++ lnText(f.Lines[$i-1])
    end assert fmtLines(f.Lines, $i) == fmtLines(f.Lines, $i-1) ++ lnText(f.Lines[$i-1])

func (*TextFragment).String() (s)
  requires recv != nil
  allocates
  ensures s == fragText(recv)

// ---- lines of a text that starts at a line of the input

pred oneLineText(t: []byte): bool = len(t) > 0 && t[len(t)-1] == '\n' && (forall j {t[j]} :: 0 <= j < len(t)-1 ==> t[j] != '\n')
lemma lineEndAt(c: []byte, p: int, e: int)
  requires 0 <= p < e && e <= len(c) && c[e-1] == '\n' && (forall j {c[j]} :: p <= j < e-1 ==> c[j] != '\n')
  ensures lineEnd(c, p) == e
  decreases e - p
  proof case p == e-1
  proof use lineEndAt(c, p+1, e)
  proof assert p == e-1 || c[p] != '\n'
// the input has text t from line k on
pred textAt(c: []byte, k: int, t: []byte): bool = lineStart(c, k) + len(t) <= len(c) && c[lineStart(c, k):lineStart(c, k)+len(t)] == t
lemma textSplit(c: []byte, k: int, a: []byte, b: []byte)
  requires textAt(c, k, a ++ b)
  ensures textAt(c, k, a) && c[lineStart(c, k)+len(a):lineStart(c, k)+len(a)+len(b)] == b
  proof let t = a ++ b
  proof let p = lineStart(c, k)
  proof use lineStartBounds(c, k)
  proof assert t[:len(a)] == a && t[len(a):] == b && len(t) == len(a) + len(b)
  proof assert c[p:p+len(t)][:len(a)] == c[p:p+len(a)]
  proof assert c[p:p+len(t)][len(a):] == c[p+len(a):p+len(t)]
lemma markLine()
  ensures oneLineText(markText())
lemma oneLine(c: []byte, k: int, t: []byte)
  requires 0 <= k && oneLineText(t) && textAt(c, k, t)
  ensures lineAt(c, k) == t && lineStart(c, k+1) == lineStart(c, k) + len(t)
  proof let p = lineStart(c, k)
  proof use lineStartBounds(c, k)
  proof assert c[p+len(t)-1] == t[len(t)-1]
  proof assert forall j {c[j]} :: p <= j < p+len(t)-1 ==> c[j] == t[j-p]
  proof use lineEndAt(c, p, p+len(t))

// ---- lines of a fragment that survive
pred lineKept(l: Line): bool = 0 <= l.Op <= 2 && (forall j {l.Line[j]} :: 0 <= j < len(l.Line)-1 ==> l.Line[j] != '\n')
pred linesKept(ls: []Line): bool = forall i {ls[i]} :: 0 <= i < len(ls) ==> lineKept(ls[i])
pred nLns(ls: []Line, i: int): int = if i <= 0 then 0 else nLns(ls, i-1) + (if noEOL(ls[i-1].Line) then 2 else 1)
lemma nLnsPos(ls: []Line, i: int)
  ensures 0 <= nLns(ls, i)
  trigger nLns(ls, i)
  decreases max(i, 0)
  proof case i <= 0
  proof use nLnsPos(ls, i-1)

lemma cntTwo(ls: []Line, i: int, j: int)
  requires 0 <= i < j && j <= len(ls) && linesKept(ls)
  ensures cntOld(ls, i) <= cntOld(ls, j) && cntNew(ls, i) <= cntNew(ls, j) && cntOld(ls, i) + cntNew(ls, i) < cntOld(ls, j) + cntNew(ls, j)
  decreases j
  proof assert lineKept(ls[j-1])
  proof case i == j-1
  proof use cntTwo(ls, i, j-1)
lemma moreAt(ls: []Line, i: int)
  requires 0 <= i < len(ls) && linesKept(ls)
  ensures more(ls[:i], nOld(ls), nNew(ls))
  proof use cntSame(ls[:i], ls, i)
  proof use cntReveal(ls[:i])
  proof use cntReveal(ls)
  proof use cntTwo(ls, i, len(ls))

// the first line of a formatted line
lemma fmtLine(c: []byte, k: int, l: Line)
  requires 0 <= k && lineKept(l) && textAt(c, k, lnText(l))
  ensures lineAt(c, k) == opStr(l.Op) ++ eolText(l.Line) && lineOf(lineAt(c, k)) == mk(Line, l.Op, eolText(l.Line))
  ensures isOpLine(lineAt(c, k)) && !isMarker(lineAt(c, k))
  ensures !noEOL(l.Line) ==> lineStart(c, k+1) == lineStart(c, k) + len(lnText(l))
  ensures noEOL(l.Line) ==> isMarker(lineAt(c, k+1)) && lineStart(c, k+2) == lineStart(c, k) + len(lnText(l))
  proof let t = opStr(l.Op) ++ eolText(l.Line)
  proof use lineStartBounds(c, k)
  proof assert len(t) == len(eolText(l.Line)) + 1 && t[1:] == eolText(l.Line) && len(opStr(l.Op)) == 1 && t[0] == opStr(l.Op)[0]
  proof assert forall j {eolText(l.Line)[j]} :: 0 <= j < len(eolText(l.Line))-1 ==> eolText(l.Line)[j] == l.Line[j] && l.Line[j] != '\n'
  proof assert forall j {t[j]} :: 1 <= j < len(t)-1 ==> t[j] == eolText(l.Line)[j-1] && t[j] != '\n'
  proof assert t[0] != '\n'
  proof assert "\n" ++ markText() == "\n\\ No newline at end of file\n"
  proof assert lnText(l) == t ++ (if noEOL(l.Line) then markText() else empty())
  proof assert oneLineText(t)
  proof assert textAt(c, k, t)
  proof use oneLine(c, k, t)
  proof assert lineOf(t) == mk(Line, l.Op, eolText(l.Line))
  proof assert noEOL(l.Line) ==> textAt(c, k+1, markText())
  proof use markLine()
  proof case noEOL(l.Line)
  proof use oneLine(c, k+1, markText())
  proof assert noEOL(l.Line) ==> lineAt(c, k+1) == markText()

lemma stripTo(a: []Line, l: Line)
  requires noEOL(l.Line)
  ensures stripLast(a ++ unit(mk(Line, l.Op, eolText(l.Line)))) == a ++ unit(l)
  uses reveal:stripLast
  proof let b = a ++ unit(mk(Line, l.Op, eolText(l.Line)))
  proof assert len(b) == len(a) + 1 && b[len(a)] == mk(Line, l.Op, eolText(l.Line))
  proof assert trimSuf(eolText(l.Line), "\n") == l.Line
  proof assert mk(Line, l.Op, l.Line) == l
  proof assert upd(b, len(a), l) == a ++ unit(l)

lemma bodyLines(c: []byte, k: int, ls: []Line, i: int)
  requires 0 <= k && 0 <= i <= len(ls) && linesKept(ls) && textAt(c, k, fmtLines(ls, i))
  ensures lineStart(c, k + nLns(ls, i)) == lineStart(c, k) + len(fmtLines(ls, i))
  ensures plines(c, k, nLns(ls, i)) == ls[:i]
  ensures i > 0 ==> textAt(c, k + nLns(ls, i-1), lnText(ls[i-1])) && plines(c, k, nLns(ls, i-1)) == ls[:i-1]
  decreases i
  proof case i == 0
  proof assert i == 0 || fmtLines(ls, i) == fmtLines(ls, i-1) ++ lnText(ls[i-1])
  proof use textSplit(c, k, fmtLines(ls, i-1), lnText(ls[i-1]))
  proof assert i == 0 || textAt(c, k, fmtLines(ls, i-1))
  proof use bodyLines(c, k, ls, i-1)
  proof let m = nLns(ls, i-1)
  proof use nLnsPos(ls, i-1)
  proof assert i == 0 || textAt(c, k+m, lnText(ls[i-1]))
  proof assert i == 0 || lineKept(ls[i-1])
  proof use fmtLine(c, k+m, ls[i-1])
  proof use plinesStep(c, k, m)
  proof use plinesStep(c, k, m+1)
  proof use stripTo(ls[:i-1], ls[i-1])
  proof assert i == 0 || ls[:i] == ls[:i-1] ++ unit(ls[i-1])
  proof assert i == 0 || noEOL(ls[i-1].Line) || mk(Line, ls[i-1].Op, eolText(ls[i-1].Line)) == ls[i-1]

lemma sameOps(a: []Line, l: Line, t: []byte)
  ensures nOld(a ++ unit(mk(Line, l.Op, t))) == nOld(a ++ unit(l)) && nNew(a ++ unit(mk(Line, l.Op, t))) == nNew(a ++ unit(l))
  ensures nAdd(a ++ unit(mk(Line, l.Op, t))) == nAdd(a ++ unit(l)) && nDel(a ++ unit(mk(Line, l.Op, t))) == nDel(a ++ unit(l))
  proof use nPush(a, l)
  proof use nPush(a, mk(Line, l.Op, t))

lemma bodyRun(c: []byte, k: int, ls: []Line, i: int)
  requires 0 <= k && 0 <= i < len(ls) && linesKept(ls) && textAt(c, k, fmtLines(ls, i))
  ensures chunkRun(c, k, nOld(ls), nNew(ls), 0) == chunkRun(c, k, nOld(ls), nNew(ls), nLns(ls, i))
  decreases i
  proof case i == 0
  proof assert i == 0 || fmtLines(ls, i) == fmtLines(ls, i-1) ++ lnText(ls[i-1])
  proof use textSplit(c, k, fmtLines(ls, i-1), lnText(ls[i-1]))
  proof assert i == 0 || textAt(c, k, fmtLines(ls, i-1))
  proof use bodyRun(c, k, ls, i-1)
  proof use bodyLines(c, k, ls, i)
  proof let m = nLns(ls, i-1)
  proof use nLnsPos(ls, i-1)
  proof assert i == 0 || lineKept(ls[i-1])
  proof use fmtLine(c, k+m, ls[i-1])
  proof use moreAt(ls, i-1)
  proof use moreAt(ls, i)
  proof use runCases(c, k, nOld(ls), nNew(ls), m)
  proof use runCases(c, k, nOld(ls), nNew(ls), m+1)
  proof use plinesStep(c, k, m)
  proof use sameOps(ls[:i-1], ls[i-1], eolText(ls[i-1].Line))
  proof assert i == 0 || ls[:i] == ls[:i-1] ++ unit(ls[i-1])

lemma bodyChunk(c: []byte, k: int, ls: []Line)
  requires 0 <= k && len(ls) > 0 && linesKept(ls) && textAt(c, k, fmtLines(ls, len(ls))) && nAdd(ls) + nDel(ls) > 0
  requires !isMarker(lineAt(c, k + nLns(ls, len(ls))))
  ensures chunkOK(c, k, nOld(ls), nNew(ls)) && chunkLen(c, k, nOld(ls), nNew(ls)) == nLns(ls, len(ls)) && plines(c, k, nLns(ls, len(ls))) == ls
  proof let q = len(ls) - 1
  proof assert fmtLines(ls, len(ls)) == fmtLines(ls, q) ++ lnText(ls[q])
  proof use textSplit(c, k, fmtLines(ls, q), lnText(ls[q]))
  proof assert textAt(c, k, fmtLines(ls, q))
  proof use bodyLines(c, k, ls, len(ls))
  proof use bodyRun(c, k, ls, q)
  proof let m = nLns(ls, q)
  proof use nLnsPos(ls, q)
  proof assert lineKept(ls[q])
  proof use fmtLine(c, k+m, ls[q])
  proof use moreAt(ls, q)
  proof use runCases(c, k, nOld(ls), nNew(ls), m)
  proof use runCases(c, k, nOld(ls), nNew(ls), m+1)
  proof use plinesStep(c, k, m)
  proof use sameOps(ls[:q], ls[q], eolText(ls[q].Line))
  proof assert ls[:q] ++ unit(ls[q]) == ls
  proof assert ls[:len(ls)] == ls
  proof use chunkBodyIs(c, k, nOld(ls), nNew(ls))
  proof assert chunkBody(c, k, nOld(ls), nNew(ls)) == m+1
  proof use chunkDef(c, k, nOld(ls), nNew(ls), m+1)

// ---- header lines

lemma findNone(s: []byte, sub: []byte, i: int)
  requires 0 <= i && len(sub) > 0 && (forall j {s[j]} :: i <= j < len(s) ==> s[j] != sub[0])
  ensures find(s, sub, i) == 0-1
  decreases len(s) - i
  proof case i + len(sub) > len(s)
  proof assert i + len(sub) > len(s) || s[i:i+len(sub)][0] == s[i]
  proof use findNone(s, sub, i+1)

pred int64(n: int): bool = 0-9223372036854775808 <= n <= 9223372036854775807
pred rangeText(x: int, y: int): []byte = itoa(x) ++ "," ++ itoa(y)
pred rangeByte(b: int): bool = b == 45 || b == 44 || isDig(10, b)

lemma rangeParses(x: int, y: int)
  requires int64(x) && int64(y)
  ensures rOK(rangeText(x, y)) && rPos(rangeText(x, y)) == x && rCnt(rangeText(x, y)) == y
  ensures forall j {rangeText(x, y)[j]} :: 0 <= j < len(rangeText(x, y)) ==> rangeByte(rangeText(x, y)[j])
  uses reveal:rOK reveal:rPos reveal:rCnt
  proof let s = rangeText(x, y)
  proof use itoaNum(x)
  proof use itoaNum(y)
  proof use itoaBytes(x)
  proof use itoaBytes(y)
  proof assert s[:len(itoa(x))] == itoa(x) && s[len(itoa(x))+1:] == itoa(y) && s[len(itoa(x)):len(itoa(x))+1] == ","
  proof assert forall j {s[j]} :: 0 <= j < len(itoa(x)) ==> s[j] == itoa(x)[j] && s[j] != ','
  proof use findAt(s, ",", 0, len(itoa(x)))
  proof assert forall j {s[j]} :: len(itoa(x)) < j < len(s) ==> s[j] == itoa(y)[j-len(itoa(x))-1]

pred noNewline(t: []byte): bool = forall j {t[j]} :: 0 <= j < len(t) ==> t[j] != '\n'
pred commentTail(t: []byte): []byte = (if t == "" then empty() else " " ++ t) ++ "\n"
pred hdrBody(a: int, b: int, c: int, d: int): []byte = rangeText(a, b) ++ " +" ++ rangeText(c, d)
pred hdrLine(f: *TextFragment): []byte = hdrText(f) ++ "\n"

lemma hdrBodyParses(a: int, b: int, c: int, d: int)
  requires int64(a) && int64(b) && int64(c) && int64(d)
  ensures find(hdrBody(a, b, c, d), " +", 0) == len(rangeText(a, b)) && find(hdrBody(a, b, c, d), " +", len(rangeText(a, b))+2) < 0
  ensures hdrBody(a, b, c, d)[:len(rangeText(a, b))] == rangeText(a, b) && hdrBody(a, b, c, d)[len(rangeText(a, b))+2:] == rangeText(c, d)
  ensures forall j {hdrBody(a, b, c, d)[j]} :: 0 <= j < len(hdrBody(a, b, c, d)) ==> hdrBody(a, b, c, d)[j] != '@' && hdrBody(a, b, c, d)[j] != '\n'
  proof let s = hdrBody(a, b, c, d)
  proof let k = len(rangeText(a, b))
  proof use rangeParses(a, b)
  proof use rangeParses(c, d)
  proof assert forall j {s[j]} :: 0 <= j < k ==> s[j] == rangeText(a, b)[j] && rangeByte(s[j])
  proof assert forall j {s[j]} :: k+2 <= j < len(s) ==> s[j] == rangeText(c, d)[j-k-2] && rangeByte(s[j])
  proof assert s[k] == ' ' && s[k+1] == '+' && s[k:k+2] == " +"
  proof use findAt(s, " +", 0, k)
  proof use findNone(s, " +", k+2)

lemma tailTrim(t: []byte)
  requires trimmed(t) == t
  ensures trimmed(commentTail(t)) == t
  proof let s = commentTail(t)
  proof assert s[len(s)-1] == 10 && s[:len(s)-1] == (if t == "" then empty() else " " ++ t)
  proof assert t == "" || (" " ++ t)[0] == 32 && (" " ++ t)[1:] == t

lemma noNewlineAt(l: []byte, t: []byte, e: int)
  requires 0 <= e && e + len(t) <= len(l) && l[e:e+len(t)] == t && noNewline(t)
  ensures forall j {l[j]} :: e <= j < e+len(t) ==> l[j] != '\n'
  proof assert forall j {l[j]} :: e <= j < e+len(t) ==> l[j] == t[j-e]
pred hdrKept(f: *TextFragment): bool = f != nil && int64(f.OldPosition) && int64(f.OldLines) && int64(f.NewPosition) && int64(f.NewLines) && noNewline(f.Comment) && trimmed(f.Comment) == f.Comment
pred hdrBodyOf(f: *TextFragment): []byte = hdrBody(f.OldPosition, f.OldLines, f.NewPosition, f.NewLines)

lemma hdrPartsOf(m: []byte, t: []byte, l: []byte)
  requires l == "@@ -" ++ m ++ " @@" ++ t && oneLineText(t) && (forall j {m[j]} :: 0 <= j < len(m) ==> m[j] != '@' && m[j] != '\n')
  ensures hdrEnd(l) == 4 + len(m) && hdrMid(l) == m && l[4+len(m)+3:] == t && isHdr(l) && oneLineText(l)
  proof let e = 4 + len(m)
  proof assert l[:4] == "@@ -" && l[4:e] == m && l[e:e+3] == " @@" && l[e+3:] == t
  proof assert l[0] == '@' && l[1] == '@' && l[2] == ' ' && l[3] == '-' && l[e] == ' ' && l[e+1] == '@' && l[e+2] == '@'
  proof assert forall j {l[j]} :: 4 <= j < e ==> l[j] == m[j-4] && l[j] != '@' && l[j] != '\n'
  proof use findAt(l, " @@", 0, e)
  proof assert forall j {l[j]} :: e+3 <= j < len(l) ==> l[j] == t[j-e-3]
  proof assert len(l) == e + 3 + len(t) && l[len(l)-1] == '\n'
  proof assert forall j {l[j]} :: e+3 <= j < len(l)-1 ==> l[j] != '\n'
  proof use noNewlineAt(l, "@@ -", 0)
  proof use noNewlineAt(l, " @@", e)
  proof assert forall j {l[j]} :: 0 <= j < len(l)-1 ==> l[j] != '\n'

lemma commentLine(t: []byte)
  requires noNewline(t)
  ensures oneLineText(commentTail(t))
  proof assert t == "" || (" " ++ t)[0] == 32 && (forall j {(" " ++ t)[j]} :: 1 <= j < len(t)+1 ==> (" " ++ t)[j] == t[j-1])

lemma hdrParts(f: *TextFragment)
  requires hdrKept(f)
  ensures hdrEnd(hdrLine(f)) == 4 + len(hdrBodyOf(f)) && hdrMid(hdrLine(f)) == hdrBodyOf(f) && hdrLine(f)[hdrEnd(hdrLine(f))+3:] == commentTail(f.Comment)
  ensures isHdr(hdrLine(f)) && oneLineText(hdrLine(f))
  proof use hdrBodyParses(f.OldPosition, f.OldLines, f.NewPosition, f.NewLines)
  proof use commentLine(f.Comment)
  proof assert hdrLine(f) == "@@ -" ++ hdrBodyOf(f) ++ " @@" ++ commentTail(f.Comment)
  proof use hdrPartsOf(hdrBodyOf(f), commentTail(f.Comment), hdrLine(f))

lemma hdrParses(f: *TextFragment)
  requires hdrKept(f)
  ensures oneLineText(hdrLine(f)) && hdrOK(hdrLine(f)) && hdrOf(f, hdrLine(f)) && isHdr(hdrLine(f))
  uses reveal:hdrOK reveal:hdrOldPos reveal:hdrOldCnt reveal:hdrNewPos reveal:hdrNewCnt reveal:hdrComment
  proof use hdrParts(f)
  proof use hdrBodyParses(f.OldPosition, f.OldLines, f.NewPosition, f.NewLines)
  proof use rangeParses(f.OldPosition, f.OldLines)
  proof use rangeParses(f.NewPosition, f.NewLines)
  proof use tailTrim(f.Comment)
  proof let l = hdrLine(f)
  proof assert hdrSep(l) == len(rangeText(f.OldPosition, f.OldLines))
  proof assert hdrMid(l)[:hdrSep(l)] == rangeText(f.OldPosition, f.OldLines) && hdrMid(l)[hdrSep(l)+2:] == rangeText(f.NewPosition, f.NewLines)
  proof assert hdrOldPos(l) == f.OldPosition && hdrOldCnt(l) == f.OldLines
  proof assert hdrNewPos(l) == f.NewPosition && hdrNewCnt(l) == f.NewLines
  proof assert hdrComment(l) == f.Comment

// ---- a formatted fragment parses back

pred fragKept(f: *TextFragment): bool = f != nil && int64(f.OldPosition) && int64(f.OldLines) && int64(f.NewPosition) && int64(f.NewLines) && noNewline(f.Comment) && trimmed(f.Comment) == f.Comment
  | && linesKept(f.Lines) && countsOK(f) && f.LinesAdded + f.LinesDeleted > 0
pred sameFrag(f: *TextFragment, g: *TextFragment): bool = f.Comment == g.Comment && f.OldPosition == g.OldPosition && f.OldLines == g.OldLines && f.NewPosition == g.NewPosition && f.NewLines == g.NewLines
  | && f.LinesAdded == g.LinesAdded && f.LinesDeleted == g.LinesDeleted && f.LeadingContext == g.LeadingContext && f.TrailingContext == g.TrailingContext && f.Lines == g.Lines

lemma fragParses(f: *TextFragment, c: []byte, s: int)
  requires fragKept(f) && s >= 0 && textAt(c, s, fragText(f)) && !isMarker(lineAt(c, s + 1 + nLns(f.Lines, len(f.Lines))))
  ensures fOK(c, s) && hdrOf(f, lineAt(c, s)) && isHdr(lineAt(c, s)) && f.Lines == plines(c, s+1, fLen(c, s)) && fLen(c, s) == nLns(f.Lines, len(f.Lines))
  ensures lineStart(c, s + 1 + fLen(c, s)) == lineStart(c, s) + len(fragText(f))
  uses reveal:fLen reveal:fOK
  proof let L = f.Lines
  proof use textSplit(c, s, hdrLine(f), fmtLines(L, len(L)))
  proof use hdrParses(f)
  proof use oneLine(c, s, hdrLine(f))
  proof assert textAt(c, s+1, fmtLines(L, len(L)))
  proof use consistentCounts(f)
  proof use nEmpty(L)
  proof use cntReveal(L)
  proof use bodyChunk(c, s+1, L)
  proof use bodyLines(c, s+1, L, len(L))

// the fragment ParseTextFragments makes of the formatted text is the same fragment
lemma fragRoundTrip(f: *TextFragment, g: *TextFragment, c: []byte, s: int)
  requires fragKept(f) && s >= 0 && textAt(c, s, fragText(f)) && !isMarker(lineAt(c, s + 1 + nLns(f.Lines, len(f.Lines))))
  requires g != nil && parsedFrag(g, c, s) && consistent(g)
  ensures sameFrag(f, g)
  proof use fragParses(f, c, s)
  proof use consistentCounts(f)

// and it does parse, unless it does not fit the file it is in
lemma fragAccepted(f: *TextFragment, c: []byte, s: int, isNew: bool, isDel: bool)
  requires fragKept(f) && s >= 0 && textAt(c, s, fragText(f)) && !isMarker(lineAt(c, s + 1 + nLns(f.Lines, len(f.Lines))))
  requires (isNew ==> f.OldLines == 0) && (isDel ==> f.NewLines == 0)
  ensures isHdr(lineAt(c, s)) && !badFrag(c, s, isNew, isDel)
  proof use fragParses(f, c, s)

prop C10 (*TextFragment).String (*parser).ParseTextFragments lemma=fragRoundTrip lemma=fragAccepted
