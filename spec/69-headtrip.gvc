// Names and header data survive formatting and parsing.

// ---- what strconv.Unquote makes of text written with the escapes of the Go language
pred escOf(b: int): int = if b == 'a' then 7 else if b == 'b' then 8 else if b == 't' then 9 else if b == 'n' then 10 else if b == 'v' then 11 else if b == 'f' then 12 else if b == 'r' then 13 else if b == 34 then 34 else if b == 92 then 92 else 0
pred uqLen(s: []byte, i: int): int = if s[i] != 92 then 1 else if escOf(s[i+1]) != 0 then 2 else 4
pred uqOne(s: []byte, i: int): bool = if s[i] != 92 then 32 <= s[i] < 127 && s[i] != 34 else i+1 < len(s) && (escOf(s[i+1]) != 0 || i+3 < len(s) && 48 <= s[i+1] <= 51 && isDig(8, s[i+2]) && isDig(8, s[i+3]))
pred uqVal(s: []byte, i: int): int = if s[i] != 92 then s[i] else if escOf(s[i+1]) != 0 then escOf(s[i+1]) else 64*(s[i+1]-48) + 8*(s[i+2]-48) + s[i+3]-48
opaque pred uqOK(s: []byte, i: int): bool = i >= len(s) || uqOne(s, i) && uqOK(s, i + uqLen(s, i))
opaque pred uqText(s: []byte, i: int): []byte = if i >= len(s) then empty() else unit(uqVal(s, i)) ++ uqText(s, i + uqLen(s, i))
lemma uqStep(s: []byte, i: int)
  ensures i >= len(s) ==> uqOK(s, i) && uqText(s, i) == empty()
  ensures i < len(s) ==> (uqOK(s, i) <==> uqOne(s, i) && uqOK(s, i + uqLen(s, i))) && uqText(s, i) == unit(uqVal(s, i)) ++ uqText(s, i + uqLen(s, i))
  uses reveal:uqOK reveal:uqText
lemma @trusted unquoteText(b: []byte)
  requires uqOK(b, 0)
  ensures unquoteOK("\"" ++ b ++ "\"") && unquoted("\"" ++ b ++ "\"") == uqText(b, 0)

// ---- quoting and its inverse
lemma quotePre(s: []byte, i: int, n: int)
  requires 0 <= i <= n
  ensures len(quoteBody(s, i)) <= len(quoteBody(s, n)) && quoteBody(s, n)[:len(quoteBody(s, i))] == quoteBody(s, i)
  decreases n - i
  proof case i == n
  proof use quotePre(s, i, n-1)
  proof use quoteStep(s, n-1)
  proof assert quoteBody(s, n)[:len(quoteBody(s, n-1))] == quoteBody(s, n-1)
lemma bytesAt(s: []byte, p: int, t: []byte)
  requires 0 <= p && p + len(t) <= len(s) && s[p:p+len(t)] == t
  ensures forall j {t[j]} :: 0 <= j < len(t) ==> s[p+j] == t[j]
lemma escapedAt(b: []byte, p: int, x: int)
  requires 0 <= x <= 255 && 0 <= p && p + len(quotedByte(x)) <= len(b) && b[p:p+len(quotedByte(x))] == quotedByte(x)
  ensures uqOne(b, p) && uqLen(b, p) == len(quotedByte(x)) && uqVal(b, p) == x && len(quotedByte(x)) > 0
  uses reveal:escText
  proof use bytesAt(b, p, quotedByte(x))
  proof let q = quotedByte(x)
  proof assert b[p] == q[0]
  proof assert len(q) < 2 || b[p+1] == q[1]
  proof assert len(q) < 4 || b[p+2] == q[2] && b[p+3] == q[3]
lemma quoteAt(s: []byte, i: int)
  requires 0 <= i < len(s)
  ensures len(quoteBody(s, i)) + len(quotedByte(s[i])) <= len(quoteBody(s, len(s))) && quoteBody(s, len(s))[len(quoteBody(s, i)):len(quoteBody(s, i))+len(quotedByte(s[i]))] == quotedByte(s[i])
  ensures len(quoteBody(s, i+1)) == len(quoteBody(s, i)) + len(quotedByte(s[i]))
  proof use quotePre(s, i+1, len(s))
  proof use quoteStep(s, i)
  proof let a = quoteBody(s, i)
  proof let b = quotedByte(s[i])
  proof assert (a ++ b)[len(a):len(a)+len(b)] == b
  proof assert quoteBody(s, len(s))[:len(a)+len(b)] == a ++ b
  proof assert quoteBody(s, len(s))[:len(a)+len(b)][len(a):] == quoteBody(s, len(s))[len(a):len(a)+len(b)]
lemma quoteUndone(s: []byte, i: int)
  requires 0 <= i <= len(s)
  ensures uqOK(quoteBody(s, len(s)), len(quoteBody(s, i))) && uqText(quoteBody(s, len(s)), len(quoteBody(s, i))) == s[i:]
  decreases len(s) - i
  proof let b = quoteBody(s, len(s))
  proof let p = len(quoteBody(s, i))
  proof use uqStep(b, p)
  proof case i == len(s)
  proof use quoteAt(s, i)
  proof use escapedAt(b, p, s[i])
  proof use quoteUndone(s, i+1)
  proof assert i == len(s) || s[i:] == unit(s[i]) ++ s[i+1:]

lemma quoteEndOne(q: []byte, p: int)
  requires 0 <= p < len(q) && uqOne(q, p)
  ensures p + uqLen(q, p) <= len(q) ==> quoteEnd(q, p, false) == quoteEnd(q, p + uqLen(q, p), false)
  proof case q[p] != 92
  proof assert quoteEnd(q, p, false) == quoteEnd(q, p+1, q[p] == 92)
  proof assert q[p] != 92 || quoteEnd(q, p+1, true) == quoteEnd(q, p+2, false)
  proof case escOf(q[p+1]) != 0
  proof assert q[p] != 92 || escOf(q[p+1]) != 0 || quoteEnd(q, p+2, false) == quoteEnd(q, p+3, false)
  proof assert q[p] != 92 || escOf(q[p+1]) != 0 || quoteEnd(q, p+3, false) == quoteEnd(q, p+4, false)
pred inQuotes(s: []byte): []byte = "\"" ++ quoteBody(s, len(s)) ++ "\""
lemma quoteEnds(s: []byte, t: []byte, i: int)
  requires 0 <= i <= len(s)
  ensures quoteEnd(inQuotes(s) ++ t, 1 + len(quoteBody(s, i)), false) == len(quoteBody(s, len(s))) + 2
  decreases len(s) - i
  proof let b = quoteBody(s, len(s))
  proof let q = inQuotes(s) ++ t
  proof let p = len(quoteBody(s, i))
  proof use quotePre(s, i, len(s))
  proof assert len(q) >= len(b) + 2 && q[len(b)+1] == 34 && q[1:len(b)+1] == b
  proof case i == len(s)
  proof use quoteAt(s, i)
  proof assert i == len(s) || q[1+p:1+p+len(quotedByte(s[i]))] == b[p:p+len(quotedByte(s[i]))]
  proof use escapedAt(q, 1+p, s[i])
  proof use quoteEndOne(q, 1+p)
  proof use quoteEnds(s, t, i+1)
lemma plainName(s: []byte)
  requires !anyQuoted(s, len(s))
  ensures quotedName(s) == s
  uses reveal:quotedName
lemma quotedParses(s: []byte, t: []byte)
  requires anyQuoted(s, len(s))
  ensures len(quotedName(s)) > 2 && quotedName(s)[0] == '"'
  ensures quoteEnd(quotedName(s) ++ t, 1, false) == len(quotedName(s))
  ensures unquoteOK(quotedName(s)) && unquoted(quotedName(s)) == s
  uses reveal:quotedName
  proof use quoteStep(s, 0)
  proof assert len(s) > 0
  proof use quoteEnds(s, t, 0)
  proof use quoteUndone(s, 0)
  proof use unquoteText(quoteBody(s, len(s)))
  proof use quoteAt(s, 0)
  proof assert len(quotedByte(s[0])) > 0 || s[0] == s[0]
  proof use escapedAt(quoteBody(s, len(s)), 0, s[0])
lemma plainBytes(s: []byte, i: int)
  requires 0 <= i <= len(s) && !anyQuoted(s, i)
  ensures forall j {s[j]} :: 0 <= j < i ==> !isQuoted(s[j])
  decreases i
  proof case i == 0
  proof use quoteStep(s, i-1)
  proof use plainBytes(s, i-1)
lemma plainEnd(s: []byte, term: int, i: int)
  requires 0 <= i <= len(s) && (term == 0 || term == 9) && (forall j {s[j]} :: 0 <= j < len(s) ==> !isQuoted(s[j]))
  ensures nameEnd(s, term, i) == len(s)
  decreases len(s) - i
  proof case i == len(s)
  proof assert i == len(s) || s[i] != '\n' && s[i] != 9
  proof use plainEnd(s, term, i+1)
lemma rawName(s: []byte, term: int)
  requires len(s) > 0 && (term == 0 || term == 9)
  ensures nmOK(quotedName(s), term) && nmRaw(quotedName(s), term) == s
  uses reveal:nmQuoted reveal:nmOK reveal:nmRaw
  proof case anyQuoted(s, len(s))
  proof use quotedParses(s, empty())
  proof assert quotedName(s) ++ empty() == quotedName(s)
  proof use plainBytes(s, len(s))
  proof use plainName(s)
  proof use plainEnd(s, term, 0)

// ---- names without leading or doubled slashes stay as they are
pred goodName(s: []byte): bool = len(s) > 0 && s[0] != '/' && (forall j {s[j]} :: 0 <= j < len(s)-1 ==> !(s[j] == '/' && s[j+1] == '/'))
lemma cleanSame(s: []byte, i: int)
  requires 0 <= i <= len(s) && goodName(s)
  ensures clName(s, 0, i) == s[:i] && clDrop(s, 0, i) == 0
  decreases i
  proof case i == 0
  proof use cleanSame(s, i-1)
  proof use clDropMax(s, 0, i)
  proof assert i == 0 || s[:i] == s[:i-1] ++ unit(s[i-1])
lemma cleanTree(s: []byte, i: int)
  requires 2 <= i <= len(s) && s[0] != '/' && s[1] == '/' && (forall j {s[j]} :: 1 <= j < len(s)-1 ==> !(s[j] == '/' && s[j+1] == '/'))
  ensures clName(s, 1, i) == s[2:i] && clDrop(s, 1, i) == 0
  decreases i
  proof assert clDrop(s, 1, 0) == 1
  proof assert clDrop(s, 1, 1) == 1
  proof case i == 2
  proof use cleanTree(s, i-1)
  proof assert i == 2 || s[2:i] == s[2:i-1] ++ unit(s[i-1])
lemma nameKept(s: []byte)
  requires goodName(s)
  ensures nmOK(quotedName(s), 0) && nmOf(quotedName(s), 0, 0) == s
  uses reveal:nmOf reveal:cleaned
  proof use rawName(s, 0)
  proof use cleanSame(s, len(s))
  proof assert s != "/dev/null"
lemma treeNameKept(s: []byte, a: int)
  requires goodName(s) && (a == 'a' || a == 'b')
  ensures nmOK(quotedName(unit(a) ++ "/" ++ s), 9) && nmOf(quotedName(unit(a) ++ "/" ++ s), 9, 1) == s
  uses reveal:nmOf reveal:cleaned
  proof let t = unit(a) ++ "/" ++ s
  proof use rawName(t, 9)
  proof assert t[0] == a && t[1] == '/' && t[2:] == s && len(t) == len(s) + 2
  proof assert forall j {t[j]} :: 2 <= j < len(t) ==> t[j] == s[j-2]
  proof assert forall j {t[j]} :: 1 <= j < len(t)-1 ==> !(t[j] == '/' && t[j+1] == '/')
  proof use cleanTree(t, len(t))
  proof assert t != "/dev/null"
lemma nullKept()
  ensures nmOK("/dev/null", 9) && nmOf("/dev/null", 9, 1) == "/dev/null"
  uses reveal:nmOf reveal:nmQuoted reveal:nmOK reveal:nmRaw
  proof use plainEnd("/dev/null", 9, 0)

// ---- single header lines
lemma otoaNum(n: int)
  requires 0 <= n < 2147483648
  ensures permOK(otoa(n)) && permOf(otoa(n)) == n && noNewline(otoa(n))
  uses reveal:numOK reveal:numVal
  proof use udecNum(8, n)
  proof use allDigEach(8, udec(8, n))
  proof use trimmedWord(otoa(n))
lemma scoreNum(n: int)
  requires 0 <= n <= 100
  ensures scoreOK(itoa(n) ++ "%") && scoreOf(itoa(n) ++ "%", 0) == n && noNewline(itoa(n) ++ "%")
  uses reveal:numOK reveal:numVal reveal:scoreOK reveal:scoreOf
  proof use udecNum(10, n)
  proof use allDigEach(10, udec(10, n))
  proof let t = itoa(n) ++ "%"
  proof assert t[:len(t)-1] == itoa(n) && t[len(t)-1:] == "%"
lemma quotedLine(s: []byte, i: int)
  requires 0 <= i <= len(s)
  ensures noNewline(quoteBody(s, i))
  uses reveal:escText
  decreases i
  proof use quoteStep(s, 0)
  proof case i == 0
  proof use quotedLine(s, i-1)
  proof use quoteStep(s, i-1)
lemma nameLine(s: []byte)
  ensures noNewline(quotedName(s))
  uses reveal:quotedName
  proof case anyQuoted(s, len(s))
  proof use quotedLine(s, len(s))
  proof use plainBytes(s, len(s))
lemma lineOfTwo(p: []byte, a: []byte)
  requires noNewline(p) && noNewline(a)
  ensures oneLineText(p ++ a ++ "\n") && trimSuf(p ++ a ++ "\n", "\n") == p ++ a
  proof let t = p ++ a
  proof assert noNewline(t)
  proof assert (t ++ "\n")[:len(t)] == t && (t ++ "\n")[len(t):] == "\n"
pred sameHead(c: []byte, k: int, s: File, k2: int, s2: File, d: []byte): bool = ghState(c, k, s, d) == ghState(c, k2, s2, d) && (ghOK(c, k, s, d) <==> ghOK(c, k2, s2, d)) && gitHeadEnd(c, k) == gitHeadEnd(c, k2)
lemma headLine(c: []byte, k: int, p: []byte, a: []byte, s: File, d: []byte)
  requires k >= 0 && noNewline(p) && noNewline(a) && textAt(c, k, p ++ a ++ "\n") && !gitEndBare(p ++ a) && bareOK(s, p ++ a)
  ensures lineStart(c, k+1) == lineStart(c, k) + len(p) + len(a) + 1
  ensures sameHead(c, k, s, k+1, bareNext(s, p ++ a, d), d)
  uses reveal:gitEnd
  proof use lineOfTwo(p, a)
  proof use oneLine(c, k, p ++ a ++ "\n")
  proof use ghStep(c, k, s, d)
  proof use gitHeadEndStep(c, k)
lemma bareOldMode(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("old mode " ++ a) && (bareOK(s, "old mode " ++ a) <==> permOK(a)) && bareNext(s, "old mode " ++ a, d) == setOldMode(s, permOf(a))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "old mode " ++ a
  proof assert t[:9] == "old mode " && t[9:] == a
lemma bareNewMode(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("new mode " ++ a) && (bareOK(s, "new mode " ++ a) <==> permOK(a)) && bareNext(s, "new mode " ++ a, d) == setNewMode(s, permOf(a))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "new mode " ++ a
  proof assert t[:9] == "new mode " && t[9:] == a
lemma bareDeleted(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("deleted file mode " ++ a) && (bareOK(s, "deleted file mode " ++ a) <==> permOK(a)) && bareNext(s, "deleted file mode " ++ a, d) == setDeleted(s, d, permOf(a))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "deleted file mode " ++ a
  proof assert t[:18] == "deleted file mode " && t[18:] == a
lemma bareCreated(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("new file mode " ++ a) && (bareOK(s, "new file mode " ++ a) <==> permOK(a)) && bareNext(s, "new file mode " ++ a, d) == setCreated(s, d, permOf(a))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "new file mode " ++ a
  proof assert t[:14] == "new file mode " && t[14:] == a
lemma bareCopyFrom(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("copy from " ++ a) && (bareOK(s, "copy from " ++ a) <==> nmOK(a, 0)) && bareNext(s, "copy from " ++ a, d) == setCopyFrom(s, nmOf(a, 0, 0))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "copy from " ++ a
  proof assert t[:10] == "copy from " && t[10:] == a
lemma bareCopyTo(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("copy to " ++ a) && (bareOK(s, "copy to " ++ a) <==> nmOK(a, 0)) && bareNext(s, "copy to " ++ a, d) == setCopyTo(s, nmOf(a, 0, 0))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "copy to " ++ a
  proof assert t[:8] == "copy to " && t[8:] == a
lemma bareRenameFrom(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("rename from " ++ a) && (bareOK(s, "rename from " ++ a) <==> nmOK(a, 0)) && bareNext(s, "rename from " ++ a, d) == setRenameFrom(s, nmOf(a, 0, 0))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "rename from " ++ a
  proof assert t[:12] == "rename from " && t[12:] == a
lemma bareRenameTo(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("rename to " ++ a) && (bareOK(s, "rename to " ++ a) <==> nmOK(a, 0)) && bareNext(s, "rename to " ++ a, d) == setRenameTo(s, nmOf(a, 0, 0))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "rename to " ++ a
  proof assert t[:10] == "rename to " && t[10:] == a
lemma bareSimilar(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("similarity index " ++ a) && (bareOK(s, "similarity index " ++ a) <==> scoreOK(a)) && bareNext(s, "similarity index " ++ a, d) == setScore(s, scoreOf(a, s.Score))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "similarity index " ++ a
  proof assert t[:17] == "similarity index " && t[17:] == a
lemma bareDissimilar(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("dissimilarity index " ++ a) && (bareOK(s, "dissimilarity index " ++ a) <==> scoreOK(a)) && bareNext(s, "dissimilarity index " ++ a, d) == setScore(s, scoreOf(a, s.Score))
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "dissimilarity index " ++ a
  proof assert t[:20] == "dissimilarity index " && t[20:] == a
lemma bareIndex(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("index " ++ a) && (bareOK(s, "index " ++ a) <==> indexOK(a)) && bareNext(s, "index " ++ a, d) == afterIndex(s, a)
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "index " ++ a
  proof assert t[:6] == "index " && t[6:] == a
lemma bareOld(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("--- " ++ a) && (bareOK(s, "--- " ++ a) <==> nmOK(a, 9) && (oldSet(s) || sameName(nmOf(a, 9, 1), s.OldName, s.IsNew))) && bareNext(s, "--- " ++ a, d) == (if oldSet(s) then setOld(s, nmOf(a, 9, 1)) else s)
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "--- " ++ a
  proof assert t[:4] == "--- " && t[4:] == a
lemma bareNew(s: File, a: []byte, d: []byte)
  ensures !gitEndBare("+++ " ++ a) && (bareOK(s, "+++ " ++ a) <==> nmOK(a, 9) && (newSet(s) || sameName(nmOf(a, 9, 1), s.NewName, s.IsDelete))) && bareNext(s, "+++ " ++ a, d) == (if newSet(s) then setNew(s, nmOf(a, 9, 1)) else s)
  uses reveal:gitEndBare reveal:bareOK reveal:bareNext
  proof let t = "+++ " ++ a
  proof assert t[:4] == "+++ " && t[4:] == a

// ---- the index line
pred oidText(s: []byte): bool = forall j {s[j]} :: 0 <= j < len(s) ==> s[j] != ' ' && s[j] != '\n' && s[j] != '.'
pred idsText(o: []byte, n: []byte): []byte = o ++ ".." ++ n
pred modeTail(has: bool, m: int): []byte = if has then " " ++ otoa(m) else empty()
lemma idsParse(o: []byte, n: []byte)
  requires oidText(o) && oidText(n)
  ensures idsOK(idsText(o, n)) && idsOld(idsText(o, n)) == o && idsNew(idsText(o, n)) == n && noNewline(idsText(o, n)) && (forall j {idsText(o, n)[j]} :: 0 <= j < len(idsText(o, n)) ==> idsText(o, n)[j] != ' ')
  uses reveal:idsOK reveal:idsOld reveal:idsNew
  proof let t = idsText(o, n)
  proof assert t[:len(o)] == o && t[len(o):len(o)+2] == ".." && t[len(o)+2:] == n
  proof use findAt(t, "..", 0, len(o))
lemma indexParse(i: []byte, has: bool, m: int)
  requires noNewline(i) && (forall j {i[j]} :: 0 <= j < len(i) ==> i[j] != ' ') && 0 <= m < 2147483648
  ensures idxIDs(i ++ modeTail(has, m)) == i && (idxHasMode(i ++ modeTail(has, m)) <==> has) && (has ==> idxMode(i ++ modeTail(has, m)) == otoa(m)) && noNewline(i ++ modeTail(has, m))
  uses reveal:idxIDs reveal:idxHasMode reveal:idxMode
  proof use otoaNum(m)
  proof let t = i ++ modeTail(has, m)
  proof assert t[:len(i)] == i
  proof assert has ==> t[len(i):len(i)+1] == " " && t[len(i)+1:] == otoa(m)
  proof case has
  proof use findAt(t, " ", 0, len(i))
  proof use findNone(t, " ", 0)

// ---- the name on the first line
lemma allPlain(s: []byte, i: int)
  requires 0 <= i <= len(s) && (forall j {s[j]} :: 0 <= j < len(s) ==> !isQuoted(s[j]))
  ensures !anyQuoted(s, i)
  decreases i
  proof use quoteStep(s, 0)
  proof case i == 0
  proof use allPlain(s, i-1)
  proof use quoteStep(s, i-1)
lemma treesAlike(s: []byte)
  ensures anyQuoted("a/" ++ s, len(s)+2) <==> anyQuoted("b/" ++ s, len(s)+2)
  proof let a = "a/" ++ s
  proof let b = "b/" ++ s
  proof assert a[2:] == s && b[2:] == s && a[0] == 'a' && b[0] == 'b' && a[1] == '/' && b[1] == '/'
  proof assert forall j {a[j]} :: 2 <= j < len(a) ==> a[j] == b[j]
  proof assert forall j {b[j]} :: 2 <= j < len(b) ==> a[j] == b[j]
  proof case anyQuoted(a, len(s)+2)
  proof case anyQuoted(b, len(s)+2)
  proof use plainBytes(a, len(a))
  proof use plainBytes(b, len(b))
  proof use allPlain(a, len(a))
  proof use allPlain(b, len(b))
lemma slashSoon(s: []byte, i: int, m: int)
  requires 0 <= i <= m && m < len(s) && s[m] == '/'
  ensures i <= afterSlash(s, 1, i) <= m+1
  decreases m - i
  proof case s[i] == '/'
  proof assert afterSlash(s, 0, i+1) == i+1
  proof case i == m
  proof use slashSoon(s, i+1, m)
lemma afterTwo(s: []byte)
  requires len(s) >= 2 && s[0] != '/' && s[1] == '/'
  ensures afterFirst(s) == s[2:]
  proof assert afterSlash(s, 1, 0) == afterSlash(s, 1, 1)
  proof assert afterSlash(s, 1, 1) == afterSlash(s, 0, 2)
lemma twiceFinds(s: []byte, i: int)
  requires 0 <= i <= len(s)
  ensures twice(s ++ " b/" ++ s, i) == s
  decreases len(s) - i
  proof let f = s ++ " b/" ++ s
  proof let t = f[i+1:]
  proof assert f[len(s)] == 32 && f[len(s)+2] == '/' && f[:len(s)] == s && len(f) == 2*len(s) + 3
  proof use twiceStep(f, i)
  proof case i == len(s)
  proof assert i == len(s) ==> t == "b/" ++ s
  proof use afterTwo(t)
  proof assert i == len(s) || t[len(s)+1-i] == '/'
  proof use slashSoon(t, 0, len(s)+1-i)
  proof assert i == len(s) || len(t) == 2*len(s)+2-i && afterSlash(t, 1, 0) <= len(s)+2-i && 0 <= afterSlash(t, 1, 0)
  proof assert i == len(s) || len(afterFirst(t)) > i
  proof use twiceFinds(s, i+1)
pred twoNames(a: []byte, b: []byte): []byte = qA(a) ++ " " ++ qB(b)
lemma skipOne(s: []byte, p: int)
  requires 0 <= p && p+1 < len(s) && s[p] == 32 && !spaceB(s[p+1])
  ensures skipWs(s, p) == p+1
  proof assert skipWs(s, p) == skipWs(s, p+1)
lemma noQuote(s: []byte)
  requires !anyQuoted(s, len(s))
  ensures quotedName(s) == s && (forall j {s[j]} :: 0 <= j < len(s) ==> s[j] != 34)
  proof use plainName(s)
  proof use plainBytes(s, len(s))
lemma quotedHere(a: []byte, t: []byte)
  requires anyQuoted(a, len(a))
  ensures qOK(quotedName(a) ++ t) && qName(quotedName(a) ++ t) == a && quoteEnd(quotedName(a) ++ t, 1, false) == len(quotedName(a)) && quotedName(a)[0] == '"'
  proof use quotedParses(a, t)
  proof assert (quotedName(a) ++ t)[:len(quotedName(a))] == quotedName(a)
lemma dnQuotedFirst(a: []byte, b: []byte)
  requires anyQuoted(a, len(a)) && len(b) > 0 && (anyQuoted(b, len(b)) || !spaceB(b[0]))
  ensures dnOK(quotedName(a) ++ " " ++ quotedName(b)) && dnOf(quotedName(a) ++ " " ++ quotedName(b)) == oneName(a, b)
  uses reveal:dnOK reveal:dnOf
  proof let x = quotedName(a)
  proof let y = quotedName(b)
  proof let h = x ++ " " ++ y
  proof assert h == x ++ (" " ++ y)
  proof use quotedHere(a, " " ++ y)
  proof use noQuote(b)
  proof assert h[:1] == "\"" && h[0] == 34
  proof assert find(h, "\"", 0) == 0
  proof use quotedHere(b, empty())
  proof assert y ++ empty() == y
  proof assert h[len(x)] == 32 && h[len(x)+1:] == y && h[len(x)+1] == y[0]
  proof use skipOne(h, len(x))
lemma dnPlainFirst(a: []byte, b: []byte)
  requires !anyQuoted(a, len(a)) && len(a) > 0
  ensures dnOK(a ++ " " ++ quotedName(b))
  uses reveal:dnOK
  proof let y = quotedName(b)
  proof let h = a ++ " " ++ y
  proof use noQuote(a)
  proof use noQuote(b)
  proof assert h[:len(a)] == a && h[len(a)] == 32 && h[len(a)+1:] == y
  proof case anyQuoted(b, len(b))
  proof use quotedHere(b, empty())
  proof assert y ++ empty() == y
  proof assert anyQuoted(b, len(b)) ==> h[len(a)+1:len(a)+2] == "\""
  proof use findAt(h, "\"", 0, len(a)+1)
  proof use findNone(h, "\"", 0)
lemma dnAny(a: []byte, b: []byte)
  ensures dnOK(twoNames(a, b))
  proof let x = "a/" ++ a
  proof let y = "b/" ++ b
  proof assert x[0] == 'a' && y[0] == 'b'
  proof use dnQuotedFirst(x, y)
  proof use dnPlainFirst(x, y)
  proof use noQuote(x)
  proof case anyQuoted(x, len(x))
lemma dnSame(s: []byte)
  requires goodName(s)
  ensures dnOf(twoNames(s, s)) == s
  uses reveal:dnOf
  proof let x = "a/" ++ s
  proof let y = "b/" ++ s
  proof assert x[0] == 'a' && y[0] == 'b' && x[1] == '/' && y[1] == '/' && x[2:] == s && y[2:] == s
  proof use treesAlike(s)
  proof use afterTwo(x)
  proof use afterTwo(y)
  proof case anyQuoted(x, len(x))
  proof use dnQuotedFirst(x, y)
  proof use noQuote(x)
  proof use noQuote(y)
  proof let h = x ++ " " ++ y
  proof use findNone(h, "\"", 0)
  proof use afterTwo(h)
  proof assert h[2:] == s ++ " b/" ++ s
  proof assert !anyQuoted(x, len(x)) ==> twoNames(s, s) == h && find(h, "\"", 0) == 0-1 && afterFirst(h) == s ++ " b/" ++ s
  proof use twiceFinds(s, 0)

// ---- whole headers
pred nl(b: bool): int = if b then 1 else 0
pred mode31(m: int): bool = 0 <= m < 2147483648
// the header data that the format can carry
pred headKept(f: *File): bool = f != nil && mode31(f.OldMode) && mode31(f.NewMode) && 0 <= f.Score <= 100
  | && oidText(f.OldOIDPrefix) && oidText(f.NewOIDPrefix) && (f.OldOIDPrefix == "" <==> f.NewOIDPrefix == "")
  | && (f.IsNew ==> !f.IsDelete && !f.IsCopy && !f.IsRename && f.OldName == "" && goodName(f.NewName) && f.OldMode == 0)
  | && (f.IsDelete ==> !f.IsCopy && !f.IsRename && f.NewName == "" && goodName(f.OldName) && f.NewMode == 0)
  | && (!f.IsNew && !f.IsDelete ==> goodName(f.OldName) && goodName(f.NewName) && (f.IsCopy || f.IsRename || f.OldName == f.NewName)
  |     && (f.OldMode == 0 ==> f.NewMode == 0) && (f.OldMode != 0 && f.NewMode == 0 ==> f.OldOIDPrefix != ""))
pred hasOldMode(f: *File): bool = f.IsDelete || twoModes(f)
pred hasNewMode(f: *File): bool = f.IsNew || twoModes(f)
pred hasIndex(f: *File): bool = f.OldOIDPrefix != "" && f.NewOIDPrefix != ""
pred stOldMode(f: *File, s: File, d: []byte): File = if f.IsDelete then setDeleted(s, d, f.OldMode) else if twoModes(f) then setOldMode(s, f.OldMode) else s
pred stNewMode(f: *File, s: File, d: []byte): File = if f.IsNew then setCreated(s, d, f.NewMode) else if twoModes(f) then setNewMode(s, f.NewMode) else s
pred stScore(f: *File, s: File): File = if f.Score > 0 then setScore(s, f.Score) else s
pred stCopy(f: *File, s: File): File = if f.IsCopy then setCopyTo(setCopyFrom(s, f.OldName), f.NewName) else s
pred stRename(f: *File, s: File): File = if f.IsRename then setRenameTo(setRenameFrom(s, f.OldName), f.NewName) else s
pred stIndex(f: *File, s: File): File = if hasIndex(f) then setIndex(s, f.OldOIDPrefix, f.NewOIDPrefix, if indexMode(f) then f.OldMode else s.OldMode) else s
pred orNull(s: []byte): []byte = if s == "" then "/dev/null" else s
pred stOldLine(f: *File, s: File): File = if oldSet(s) then setOld(s, orNull(f.OldName)) else s
pred stNewLine(f: *File, s: File): File = if newSet(s) then setNew(s, orNull(f.NewName)) else s
pred okOldLine(f: *File, s: File): bool = oldSet(s) || sameName(orNull(f.OldName), s.OldName, s.IsNew)
pred okNewLine(f: *File, s: File): bool = newSet(s) || sameName(orNull(f.NewName), s.NewName, s.IsDelete)

lemma textNext(c: []byte, k: int, a: []byte, b: []byte, k2: int)
  requires textAt(c, k, a ++ b)
  ensures textAt(c, k, a)
  ensures lineStart(c, k2) == lineStart(c, k) + len(a) ==> textAt(c, k2, b)
  proof use textSplit(c, k, a, b)
  proof assert len(a ++ b) == len(a) + len(b)
lemma pieceOldMode(c: []byte, k: int, f: *File, s: File, d: []byte)
  requires k >= 0 && f != nil && mode31(f.OldMode) && textAt(c, k, oldModeText(f))
  ensures lineStart(c, k+nl(hasOldMode(f))) == lineStart(c, k) + len(oldModeText(f)) && sameHead(c, k, s, k+nl(hasOldMode(f)), stOldMode(f, s, d), d)
  proof let a = otoa(f.OldMode)
  proof use otoaNum(f.OldMode)
  proof use bareDeleted(s, a, d)
  proof use bareOldMode(s, a, d)
  proof case f.IsDelete
  proof case twoModes(f)
  proof use headLine(c, k, "deleted file mode ", a, s, d)
  proof use headLine(c, k, "old mode ", a, s, d)
lemma pieceNewMode(c: []byte, k: int, f: *File, s: File, d: []byte)
  requires k >= 0 && f != nil && mode31(f.NewMode) && textAt(c, k, newModeText(f))
  ensures lineStart(c, k+nl(hasNewMode(f))) == lineStart(c, k) + len(newModeText(f)) && sameHead(c, k, s, k+nl(hasNewMode(f)), stNewMode(f, s, d), d)
  proof let a = otoa(f.NewMode)
  proof use otoaNum(f.NewMode)
  proof use bareCreated(s, a, d)
  proof use bareNewMode(s, a, d)
  proof case f.IsNew
  proof case twoModes(f)
  proof use headLine(c, k, "new file mode ", a, s, d)
  proof use headLine(c, k, "new mode ", a, s, d)
lemma pieceScore(c: []byte, k: int, f: *File, s: File, d: []byte)
  requires k >= 0 && f != nil && 0 <= f.Score <= 100 && s.Score == 0 && textAt(c, k, scoreText(f))
  ensures lineStart(c, k+nl(f.Score > 0)) == lineStart(c, k) + len(scoreText(f)) && sameHead(c, k, s, k+nl(f.Score > 0), stScore(f, s), d)
  proof let a = itoa(f.Score) ++ "%"
  proof use scoreNum(f.Score)
  proof use bareSimilar(s, a, d)
  proof use bareDissimilar(s, a, d)
  proof case f.Score > 0
  proof case f.IsCopy || f.IsRename
  proof assert f.Score > 0 && (f.IsCopy || f.IsRename) ==> scoreText(f) == "similarity index " ++ a ++ "\n"
  proof assert f.Score > 0 && !(f.IsCopy || f.IsRename) ==> scoreText(f) == "dissimilarity index " ++ a ++ "\n"
  proof use headLine(c, k, "similarity index ", a, s, d)
  proof use headLine(c, k, "dissimilarity index ", a, s, d)
lemma pieceCopy(c: []byte, k: int, f: *File, s: File, d: []byte)
  requires k >= 0 && f != nil && (f.IsCopy ==> goodName(f.OldName) && goodName(f.NewName)) && textAt(c, k, copyText(f))
  ensures lineStart(c, k+2*nl(f.IsCopy)) == lineStart(c, k) + len(copyText(f)) && sameHead(c, k, s, k+2*nl(f.IsCopy), stCopy(f, s), d)
  proof let a = quotedName(f.OldName)
  proof let b = quotedName(f.NewName)
  proof let s2 = setCopyFrom(s, f.OldName)
  proof use nameKept(f.OldName)
  proof use nameKept(f.NewName)
  proof use nameLine(f.OldName)
  proof use nameLine(f.NewName)
  proof use bareCopyFrom(s, a, d)
  proof use bareCopyTo(s2, b, d)
  proof case f.IsCopy
  proof assert f.IsCopy ==> copyText(f) == ("copy from " ++ a ++ "\n") ++ ("copy to " ++ b ++ "\n")
  proof use textNext(c, k, "copy from " ++ a ++ "\n", "copy to " ++ b ++ "\n", k+1)
  proof use headLine(c, k, "copy from ", a, s, d)
  proof assert f.IsCopy ==> lineStart(c, k+1) == lineStart(c, k) + len("copy from " ++ a ++ "\n")
  proof use headLine(c, k+1, "copy to ", b, s2, d)
lemma pieceRename(c: []byte, k: int, f: *File, s: File, d: []byte)
  requires k >= 0 && f != nil && (f.IsRename ==> goodName(f.OldName) && goodName(f.NewName)) && textAt(c, k, renameText(f))
  ensures lineStart(c, k+2*nl(f.IsRename)) == lineStart(c, k) + len(renameText(f)) && sameHead(c, k, s, k+2*nl(f.IsRename), stRename(f, s), d)
  proof let a = quotedName(f.OldName)
  proof let b = quotedName(f.NewName)
  proof let s2 = setRenameFrom(s, f.OldName)
  proof use nameKept(f.OldName)
  proof use nameKept(f.NewName)
  proof use nameLine(f.OldName)
  proof use nameLine(f.NewName)
  proof use bareRenameFrom(s, a, d)
  proof use bareRenameTo(s2, b, d)
  proof case f.IsRename
  proof assert f.IsRename ==> renameText(f) == ("rename from " ++ a ++ "\n") ++ ("rename to " ++ b ++ "\n")
  proof use textNext(c, k, "rename from " ++ a ++ "\n", "rename to " ++ b ++ "\n", k+1)
  proof use headLine(c, k, "rename from ", a, s, d)
  proof assert f.IsRename ==> lineStart(c, k+1) == lineStart(c, k) + len("rename from " ++ a ++ "\n")
  proof use headLine(c, k+1, "rename to ", b, s2, d)
lemma pieceIndex(c: []byte, k: int, f: *File, s: File, d: []byte)
  requires k >= 0 && f != nil && oidText(f.OldOIDPrefix) && oidText(f.NewOIDPrefix) && mode31(f.OldMode) && textAt(c, k, indexText(f))
  ensures lineStart(c, k+nl(hasIndex(f))) == lineStart(c, k) + len(indexText(f)) && sameHead(c, k, s, k+nl(hasIndex(f)), stIndex(f, s), d)
  proof let i = idsText(f.OldOIDPrefix, f.NewOIDPrefix)
  proof let a = i ++ modeTail(indexMode(f), f.OldMode)
  proof use idsParse(f.OldOIDPrefix, f.NewOIDPrefix)
  proof use indexParse(i, indexMode(f), f.OldMode)
  proof use otoaNum(f.OldMode)
  proof use bareIndex(s, a, d)
  proof case hasIndex(f)
  proof assert hasIndex(f) ==> indexText(f) == "index " ++ a ++ "\n"
  proof use headLine(c, k, "index ", a, s, d)
pred nullOr(s: []byte, t: []byte): []byte = if s == "" then "/dev/null" else t
pred oldLineText(f: *File): []byte = nullOr(f.OldName, qA(f.OldName))
pred newLineText(f: *File): []byte = nullOr(f.NewName, qB(f.NewName))
lemma lineName(s: []byte, a: int)
  requires (a == 'a' || a == 'b') && (s == "" || goodName(s))
  ensures nmOK(nullOr(s, quotedName(unit(a) ++ "/" ++ s)), 9) && nmOf(nullOr(s, quotedName(unit(a) ++ "/" ++ s)), 9, 1) == orNull(s) && noNewline(nullOr(s, quotedName(unit(a) ++ "/" ++ s)))
  proof use treeNameKept(s, a)
  proof use nullKept()
  proof use nameLine(unit(a) ++ "/" ++ s)
  proof case s == ""
lemma pieceNames(c: []byte, k: int, f: *File, s: File, d: []byte)
  requires k >= 0 && f != nil && (f.OldName == "" || goodName(f.OldName)) && (f.NewName == "" || goodName(f.NewName)) && textAt(c, k, oldNameText(f) ++ newNameText(f)) && okOldLine(f, s) && okNewLine(f, stOldLine(f, s))
  ensures lineStart(c, k+2) == lineStart(c, k) + len(oldNameText(f)) + len(newNameText(f)) && sameHead(c, k, s, k+2, stNewLine(f, stOldLine(f, s)), d)
  proof let a = oldLineText(f)
  proof let b = newLineText(f)
  proof let s2 = stOldLine(f, s)
  proof use lineName(f.OldName, 'a')
  proof use lineName(f.NewName, 'b')
  proof use bareOld(s, a, d)
  proof use bareNew(s2, b, d)
  proof assert oldNameText(f) == "--- " ++ a ++ "\n" && newNameText(f) == "+++ " ++ b ++ "\n"
  proof use textNext(c, k, oldNameText(f), newNameText(f), k+1)
  proof use headLine(c, k, "--- ", a, s, d)
  proof use headLine(c, k+1, "+++ ", b, s2, d)

pred stHead(f: *File, d: []byte): File = stIndex(f, stRename(f, stCopy(f, stScore(f, stNewMode(f, stOldMode(f, noHead(), d), d)))))
pred namesText(f: *File): []byte = if len(f.TextFragments) == 0 then empty() else oldNameText(f) ++ newNameText(f)
pred stNames(f: *File, s: File): File = if len(f.TextFragments) == 0 then s else stNewLine(f, stOldLine(f, s))
pred defKept(f: *File, d: []byte): bool = nameA(f) == nameB(f) ==> d == nameA(f)
lemma stateKept(f: *File, d: []byte)
  requires headKept(f) && defKept(f, d)
  ensures named(stNames(f, stHead(f, d)), d) == headVal(f) && namedOK(headVal(f))
  ensures okOldLine(f, stHead(f, d)) && okNewLine(f, stOldLine(f, stHead(f, d)))
  proof case f.IsNew
  proof case f.IsDelete
  proof case f.IsCopy
  proof case f.IsRename
lemma scoreLater(f: *File, d: []byte)
  ensures stNewMode(f, stOldMode(f, noHead(), d), d).Score == 0
pred kNew(f: *File): int = nl(hasOldMode(f)) + nl(hasNewMode(f))
pred kCopy(f: *File): int = kNew(f) + nl(f.Score > 0) + 2*nl(f.IsCopy)
pred kIndex(f: *File): int = kCopy(f) + 2*nl(f.IsRename) + nl(hasIndex(f))
pred kNames(f: *File): int = kIndex(f) + 2*nl(len(f.TextFragments) > 0)
// the header lines after the first
lemma headLines(c: []byte, k: int, f: *File, d: []byte)
  requires k >= 0 && headKept(f) && defKept(f, d)
  requires textAt(c, k, oldModeText(f) ++ (newModeText(f) ++ (scoreText(f) ++ (copyText(f) ++ (renameText(f) ++ (indexText(f) ++ namesText(f)))))))
  ensures sameHead(c, k, noHead(), k + kNames(f), stNames(f, stHead(f, d)), d)
  ensures lineStart(c, k + kNames(f)) == lineStart(c, k) + len(oldModeText(f)) + len(newModeText(f)) + len(scoreText(f)) + len(copyText(f)) + len(renameText(f)) + len(indexText(f)) + len(namesText(f))
  proof let t6 = indexText(f) ++ namesText(f)
  proof let t5 = renameText(f) ++ t6
  proof let t4 = copyText(f) ++ t5
  proof let t3 = scoreText(f) ++ t4
  proof let t2 = newModeText(f) ++ t3
  proof let s1 = stOldMode(f, noHead(), d)
  proof let s2 = stNewMode(f, s1, d)
  proof let s3 = stScore(f, s2)
  proof let s4 = stCopy(f, s3)
  proof let s5 = stRename(f, s4)
  proof let s6 = stIndex(f, s5)
  proof let k1 = k + nl(hasOldMode(f))
  proof let k2 = k1 + nl(hasNewMode(f))
  proof let k3 = k2 + nl(f.Score > 0)
  proof let k4 = k3 + 2*nl(f.IsCopy)
  proof let k5 = k4 + 2*nl(f.IsRename)
  proof let k6 = k5 + nl(hasIndex(f))
  proof use textNext(c, k, oldModeText(f), t2, k1)
  proof use pieceOldMode(c, k, f, noHead(), d)
  proof use textNext(c, k1, newModeText(f), t3, k2)
  proof use pieceNewMode(c, k1, f, s1, d)
  proof use textNext(c, k2, scoreText(f), t4, k3)
  proof use scoreLater(f, d)
  proof use pieceScore(c, k2, f, s2, d)
  proof use textNext(c, k3, copyText(f), t5, k4)
  proof use pieceCopy(c, k3, f, s3, d)
  proof use textNext(c, k4, renameText(f), t6, k5)
  proof use pieceRename(c, k4, f, s4, d)
  proof use textNext(c, k5, indexText(f), namesText(f), k6)
  proof use pieceIndex(c, k5, f, s5, d)
  proof use stateKept(f, d)
  proof use pieceNames(c, k6, f, s6, d)
  proof case len(f.TextFragments) == 0
lemma gitLine(c: []byte, h: int, f: *File)
  requires h >= 0 && headKept(f) && textAt(c, h, gitText(f))
  ensures isGitHead(lineAt(c, h)) && lineStart(c, h+1) == lineStart(c, h) + len(gitText(f)) && dnOK(headArg(lineAt(c, h))) && defKept(f, defName(c, h))
  uses reveal:isGitHead
  proof let t = twoNames(nameA(f), nameB(f))
  proof let l = "diff --git " ++ t ++ "\n"
  proof assert gitText(f) == l
  proof use nameLine("a/" ++ nameA(f))
  proof use nameLine("b/" ++ nameB(f))
  proof assert noNewline(t)
  proof use lineOfTwo("diff --git ", t)
  proof use oneLine(c, h, l)
  proof assert l[:11] == "diff --git " && l[11:] == t ++ "\n"
  proof use lineOfTwo(empty(), t)
  proof assert empty() ++ t ++ "\n" == t ++ "\n" && empty() ++ t == t
  proof assert headArg(l) == t
  proof use dnAny(nameA(f), nameB(f))
  proof use dnSame(nameA(f))
pred headAll(f: *File): []byte = headText(f) ++ namesText(f)
lemma headTextIs(f: *File)
  ensures headAll(f) == gitText(f) ++ (oldModeText(f) ++ (newModeText(f) ++ (scoreText(f) ++ (copyText(f) ++ (renameText(f) ++ (indexText(f) ++ namesText(f)))))))
// a formatted header is accepted and read back as it was
lemma headRoundTrip(c: []byte, h: int, f: *File)
  requires h >= 0 && headKept(f) && textAt(c, h, headAll(f)) && gitEnd(lineAt(c, h + 1 + kNames(f)))
  ensures headParses(c, h) && headFields(c, h) == headVal(f) && isGitHead(lineAt(c, h))
  ensures headEnd(c, h) == h + 1 + kNames(f) && lineStart(c, headEnd(c, h)) == lineStart(c, h) + len(headAll(f))
  uses reveal:headParses reveal:headFields reveal:headEnd
  proof let d = defName(c, h)
  proof let e = h + 1 + kNames(f)
  proof let t = oldModeText(f) ++ (newModeText(f) ++ (scoreText(f) ++ (copyText(f) ++ (renameText(f) ++ (indexText(f) ++ namesText(f))))))
  proof use headTextIs(f)
  proof use textNext(c, h, gitText(f), t, h+1)
  proof use gitLine(c, h, f)
  proof use headLines(c, h+1, f, d)
  proof let s = stNames(f, stHead(f, d))
  proof use stateKept(f, d)
  proof use ghStep(c, e, s, d)
  proof use gitEndKeeps(s, lineAt(c, e), d)
  proof use gitHeadEndStep(c, e)

prop C11 (*File).String Parse lemma=headRoundTrip with=head without=self,names
