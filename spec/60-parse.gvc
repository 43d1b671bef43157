// Fragments, file headers and whole patches.

// the number of lines of the fragment whose header is line s, without the header
opaque pred fLen(c: []byte, s: int): int = chunkLen(c, s+1, hdrOldCnt(lineAt(c, s)), hdrNewCnt(lineAt(c, s)))
opaque pred fOK(c: []byte, s: int): bool = hdrOK(lineAt(c, s)) && chunkOK(c, s+1, hdrOldCnt(lineAt(c, s)), hdrNewCnt(lineAt(c, s)))
// the header line of the k-th fragment after line s
pred fragAt(c: []byte, s: int, k: int): int = if k <= 0 then s else fragAt(c, s, k-1) + 1 + fLen(c, fragAt(c, s, k-1))
// f stands for the fragment that starts at line s of c
pred parsedFrag(f: *TextFragment, c: []byte, s: int) = hdrOf(f, lineAt(c, s)) && f.Lines == plines(c, s+1, fLen(c, s)) && fOK(c, s)
// f agrees with its own lines
pred selfFrag(f: *TextFragment) = f != nil && consistent(f) && okOps(f.Lines) && f.LinesAdded + f.LinesDeleted > 0
// the fragment at line s does not fit the file
pred badFrag(c: []byte, s: int, isNew: bool, isDel: bool) = isHdr(lineAt(c, s)) && (!fOK(c, s) || isNew && hdrOldCnt(lineAt(c, s)) > 0 || isDel && hdrNewCnt(lineAt(c, s)) > 0)

// the line after the consecutive fragments that start at line s
opaque pred fragsEnd(c: []byte, s: int): int = if isHdr(lineAt(c, s)) then fragsEnd(c, s + 1 + fLen(c, s)) else s

lemma fragsEndStep(c: []byte, s: int)
  ensures isHdr(lineAt(c, s)) ==> fragsEnd(c, s) == fragsEnd(c, s + 1 + fLen(c, s))
  ensures !isHdr(lineAt(c, s)) ==> fragsEnd(c, s) == s
  uses reveal:fragsEnd

// one of the consecutive fragments that start at line s does not fit the file
opaque pred fragsBad(c: []byte, s: int, isNew: bool, isDel: bool): bool = isHdr(lineAt(c, s)) && (badFrag(c, s, isNew, isDel) || fragsBad(c, s + 1 + fLen(c, s), isNew, isDel))
lemma fragsBadStep(c: []byte, s: int, isNew: bool, isDel: bool)
  ensures !isHdr(lineAt(c, s)) ==> !fragsBad(c, s, isNew, isDel)
  ensures badFrag(c, s, isNew, isDel) ==> fragsBad(c, s, isNew, isDel)
  ensures isHdr(lineAt(c, s)) && !badFrag(c, s, isNew, isDel) ==> (fragsBad(c, s, isNew, isDel) <==> fragsBad(c, s + 1 + fLen(c, s), isNew, isDel))
  uses reveal:fragsBad

func (*parser).ParseTextFragments(f) (n, err)
  requires pInv(recv) && f != nil
  modifies f.TextFragments
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses reveal:fLen reveal:fOK
  after[content] ParseTextFragmentHeader assert $res0 == nil || hdrOldCnt(lineAt(pin(recv), cur(recv)-1)) == $res0.OldLines && hdrNewCnt(lineAt(pin(recv), cur(recv)-1)) == $res0.NewLines && hdrOK(lineAt(pin(recv), cur(recv)-1))
  after[content] ParseTextFragmentHeader assert $res1 == nil || isHdr(lineAt(pin(recv), fragAt(pin(recv), old(cur(recv)), n)))
  after[content] ParseTextFragmentHeader assert $res1 == nil || iofail || !hdrOK(lineAt(pin(recv), fragAt(pin(recv), old(cur(recv)), n)))
  after[content] ParseTextFragmentHeader assert $res0 == nil || cur(recv) - 1 == fragAt(pin(recv), old(cur(recv)), n)
  after ParseTextFragmentHeader use lineStartStep(pin(recv), cur(recv)-1)
  after ParseTextFragmentHeader use lineStartBounds(pin(recv), cur(recv))
  after ParseTextChunk use lineStartBounds(pin(recv), cur(recv))
  after[content] ParseTextChunk use lineStartMono(pin(recv), fragAt(pin(recv), old(cur(recv)), n)+1, cur(recv))
  after[content] ParseTextFragmentHeader assert $res0 == nil || lineStart(pin(recv), cur(recv)-1) < lineStart(pin(recv), cur(recv)) && lineStart(pin(recv), fragAt(pin(recv), old(cur(recv)), n)) < lineStart(pin(recv), cur(recv)) && isHdr(lineAt(pin(recv), fragAt(pin(recv), old(cur(recv)), n)))
  after[content] ParseTextChunk assert $res0 != nil || lineStart(pin(recv), fragAt(pin(recv), old(cur(recv)), n)) < lineStart(pin(recv), cur(recv))
  after[content] ParseTextChunk assert $res0 == nil || iofail || !fOK(pin(recv), fragAt(pin(recv), old(cur(recv)), n))
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err != io.EOF
  ensures n >= 0 && len(f.TextFragments) == old(len(f.TextFragments)) + n
  ensures f.TextFragments[:old(len(f.TextFragments))] == old(f.TextFragments)
  ensures forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> f.TextFragments[i] != nil && fresh(f.TextFragments[i])
  ensures[self] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> selfFrag(f.TextFragments[i])
  ensures[content] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> parsedFrag(f.TextFragments[i], pin(recv), fragAt(pin(recv), old(cur(recv)), i - old(len(f.TextFragments))))
  ensures[self] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> !(f.IsNew && f.TextFragments[i].OldLines > 0)
  ensures[self] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> !(f.IsDelete && f.TextFragments[i].NewLines > 0)
  ensures err == nil ==> pInv(recv)
  ensures[content] err == nil ==> cur(recv) == fragAt(pin(recv), old(cur(recv)), n) && !isHdr(recv.lines[0])
  ensures err == nil ==> cur(recv) >= old(cur(recv))
  ensures[content] err == nil ==> cur(recv) == fragsEnd(pin(recv), old(cur(recv)))
  ensures[content] err == nil ==> (n > 0 <==> isHdr(old(recv.lines[0])))
  ensures err == nil && n == 0 ==> recv.lines == old(recv.lines) && recv.eof == old(recv.eof)
  ensures[content] err != nil && !iofail ==> badFrag(pin(recv), fragAt(pin(recv), old(cur(recv)), n), f.IsNew, f.IsDelete)
  ensures[files] err != nil && !iofail ==> fragsBad(pin(recv), old(cur(recv)), f.IsNew, f.IsDelete)
  loop 1
    invariant pInv(recv) && pin(recv) == old(pin(recv))
    invariant[io] iofail == old(iofail)
    invariant n >= 0 && len(f.TextFragments) == old(len(f.TextFragments)) + n
    invariant f.TextFragments[:old(len(f.TextFragments))] == old(f.TextFragments)
    invariant forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> f.TextFragments[i] != nil && fresh(f.TextFragments[i])
    invariant[self] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> selfFrag(f.TextFragments[i])
    invariant[content] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> parsedFrag(f.TextFragments[i], pin(recv), fragAt(pin(recv), old(cur(recv)), i - old(len(f.TextFragments))))
    invariant[self] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> !(f.IsNew && f.TextFragments[i].OldLines > 0)
    invariant[self] forall i {f.TextFragments[i]} :: old(len(f.TextFragments)) <= i < len(f.TextFragments) ==> !(f.IsDelete && f.TextFragments[i].NewLines > 0)
    invariant[content] cur(recv) == fragAt(pin(recv), old(cur(recv)), n)
    invariant cur(recv) >= old(cur(recv))
    invariant n == 0 ==> recv.lines == old(recv.lines) && recv.eof == old(recv.eof)
    invariant[content] n > 0 ==> isHdr(old(recv.lines[0]))
    invariant[content] fragsEnd(pin(recv), old(cur(recv))) == fragsEnd(pin(recv), cur(recv))
    invariant[files] fragsBad(pin(recv), old(cur(recv)), f.IsNew, f.IsDelete) <==> fragsBad(pin(recv), cur(recv), f.IsNew, f.IsDelete)
    body[content] use fragsEndStep(pin(recv), cur(recv))
    body[files] use fragsBadStep(pin(recv), cur(recv), f.IsNew, f.IsDelete)
    body let c0 = cur(recv)
    end use lineStartMono(pin(recv), c0+1, cur(recv))
    end[content] assert parsedFrag(f.TextFragments[len(f.TextFragments)-1], pin(recv), fragAt(pin(recv), old(cur(recv)), n-1))
    decreases len(pin(recv)) - lineStart(pin(recv), cur(recv))


// ---- names, modes, header lines (what they may change)

pred spaceB(b: int): bool = b == 32 || b == 9 || b == 10

func isSpace(c) (r)
  ensures r <==> spaceB(c)

func parseMode(s) (m, err)
  allocates
  ensures err == nil <==> numOK(8, 32, s)
  ensures err == nil ==> m == (if numVal(8, s) < 0 then numVal(8, s) + 4294967296 else numVal(8, s))
  ensures err != nil ==> m == 0
  ensures err != io.EOF

func parseGitHeaderOldMode(f, line, defaultName) (err)
  requires f != nil
  modifies f.OldMode
  allocates
  ensures[head] err == nil <==> permOK(line)
  ensures[head] err == nil ==> f.OldMode == permOf(line)
  ensures err != io.EOF

func parseGitHeaderNewMode(f, line, defaultName) (err)
  requires f != nil
  modifies f.NewMode
  allocates
  ensures[head] err == nil <==> permOK(line)
  ensures[head] err == nil ==> f.NewMode == permOf(line)
  ensures err != io.EOF

func parseGitHeaderScore(f, line, defaultName) (err)
  requires f != nil
  modifies f.Score
  allocates
  uses reveal:scoreOK reveal:scoreOf
  ensures[head] err == nil <==> scoreOK(line)
  ensures[head] err == nil ==> f.Score == scoreOf(line, old(f.Score))
  ensures[names] old(f.Score) <= 100 ==> f.Score <= 100
  ensures err != io.EOF

func parseGitHeaderIndex(f, line, defaultName) (err)
  requires f != nil
  modifies f.OldOIDPrefix, f.NewOIDPrefix, f.OldMode
  allocates
  uses findBounds
  uses reveal:idxIDs reveal:idxHasMode reveal:idxMode reveal:idsOK reveal:idsOld reveal:idsNew
  ensures[head] err == nil <==> indexOK(line)
  ensures[head] err == nil ==> headVal(f) == afterIndex(old(headVal(f)), line)
  ensures err != io.EOF


// ---- names

// end of an unquoted name
pred nameEnd(s: []byte, term: int, i: int): int = if i >= len(s) || s[i] == '\n' || term > 0 && s[i] == term then i else nameEnd(s, term, i+1)

func parseUnquotedName(s, term) (name, n, err)
  allocates
  ensures err == nil <==> nameEnd(s, term, 0) > 0
  ensures err == nil ==> n == nameEnd(s, term, 0) && 0 < n <= len(s) && name == s[:n]
  ensures err != io.EOF
  local n int
  loop 1
    invariant 0 <= n <= len(s) && nameEnd(s, term, 0) == nameEnd(s, term, n)

// what strconv.Unquote makes of a double-quoted text
extern @pure unquoted(s: []byte): []byte
extern @pure unquoteOK(s: []byte): bool
axiom unquoteShort forall s: []byte {unquoteOK(s)} :: unquoteOK(s) ==> len(s) >= 2
axiom unquotedLen forall s: []byte {unquoted(s)} :: len(s) > 2 && s[0] == '"' && unquoteOK(s) ==> len(unquoted(s)) > 0
extern strconv.Unquote(s) (r, err)
  allocates
  ensures err == nil <==> unquoteOK(s)
  ensures err == nil ==> r == unquoted(s)
  ensures err != io.EOF

// end of a quoted name: the first unescaped quote at or after i
pred quoteEnd(s: []byte, i: int, esc: bool): int = if i >= len(s) then i else if s[i] == '"' && !esc then i+1 else quoteEnd(s, i+1, s[i] == '\\' && !esc)

func parseQuotedName(s) (name, n, err)
  requires len(s) > 0
  allocates
  ensures err == nil <==> quoteEnd(s, 1, false) != 2 && unquoteOK(s[:quoteEnd(s, 1, false)])
  ensures err == nil ==> n == quoteEnd(s, 1, false) && 1 <= n <= len(s) && name == unquoted(s[:n])
  ensures err != io.EOF
  local n int
  local escaped bool
  loop 1
    invariant 1 <= n <= len(s) && quoteEnd(s, 1, false) == quoteEnd(s, n, escaped)
    decreases len(s) - n

// dropping path components and double slashes, over the first i bytes
pred clDrop(s: []byte, drop: int, i: int): int = if i <= 0 then drop else if s[i-1] == '/' && !(i < len(s) && s[i] == '/') && clDrop(s, drop, i-1) > 0 then clDrop(s, drop, i-1) - 1 else clDrop(s, drop, i-1)
pred clName(s: []byte, drop: int, i: int): []byte = if i <= 0 then empty() else if s[i-1] == '/' && i < len(s) && s[i] == '/' then clName(s, drop, i-1)
  | else if s[i-1] == '/' && clDrop(s, drop, i-1) > 0 then empty() else clName(s, drop, i-1) ++ unit(s[i-1])
opaque pred cleaned(s: []byte, drop: int): []byte = clName(s, drop, len(s))

lemma clDropMax(s: []byte, drop: int, i: int)
  ensures drop <= 0 ==> clDrop(s, drop, i) == drop
  decreases max(i, 0)
  trigger clDrop(s, drop, i)
  proof case i <= 0
  proof use clDropMax(s, drop, i-1)

lemma cleanedSome(s: []byte, drop: int)
  requires len(s) > 0 && drop <= 0
  ensures len(cleaned(s, drop)) > 0
  uses reveal:cleaned
  trigger cleaned(s, drop)
  proof use clDropMax(s, drop, len(s)-1)

func cleanName(name, drop) (r)
  uses reveal:cleaned
  ensures r == cleaned(name, old(drop))
  local b *strings.Builder
  loop 1
    invariant 0 <= $i <= len(name) && b == clName(name, old(drop), $i) && drop == clDrop(name, old(drop), $i)

opaque pred nmQuoted(s: []byte): bool = len(s) > 0 && s[0] == '"'
opaque pred nmOK(s: []byte, term: int): bool = if nmQuoted(s) then quoteEnd(s, 1, false) != 2 && unquoteOK(s[:quoteEnd(s, 1, false)]) else nameEnd(s, term, 0) > 0
opaque pred nmRaw(s: []byte, term: int): []byte = if nmQuoted(s) then unquoted(s[:quoteEnd(s, 1, false)]) else s[:nameEnd(s, term, 0)]
opaque pred nmOf(s: []byte, term: int, drop: int): []byte = if nmRaw(s, term) == "/dev/null" then nmRaw(s, term) else cleaned(nmRaw(s, term), drop)

func parseName(s, term, drop) (name, n, err)
  allocates
  uses reveal:nmQuoted reveal:nmOK reveal:nmRaw reveal:nmOf cleanedSome
  ensures err == nil <==> nmOK(s, term)
  ensures err == nil ==> name == nmOf(s, term, drop)
  ensures err == nil && drop <= 0 ==> len(name) > 0
  ensures err != io.EOF

func parseGitHeaderOldName(f, line, defaultName) (err)
  requires f != nil
  modifies f.OldName
  allocates
  ensures[head] err == nil <==> nmOK(line, 9) && (old(f.OldName) == "" && !f.IsNew || sameName(nmOf(line, 9, 1), old(f.OldName), f.IsNew))
  ensures[head] err == nil ==> f.OldName == (if old(f.OldName) == "" && !f.IsNew then nmOf(line, 9, 1) else old(f.OldName))
  ensures err != io.EOF

func parseGitHeaderNewName(f, line, defaultName) (err)
  requires f != nil
  modifies f.NewName
  allocates
  ensures[head] err == nil <==> nmOK(line, 9) && (old(f.NewName) == "" && !f.IsDelete || sameName(nmOf(line, 9, 1), old(f.NewName), f.IsDelete))
  ensures[head] err == nil ==> f.NewName == (if old(f.NewName) == "" && !f.IsDelete then nmOf(line, 9, 1) else old(f.NewName))
  ensures err != io.EOF

func parseGitHeaderDeletedMode(f, line, defaultName) (err)
  requires f != nil
  modifies f.IsDelete, f.OldName, f.OldMode
  allocates
  ensures[head] err == nil <==> permOK(line)
  ensures[head] err == nil ==> f.IsDelete && f.OldName == defaultName && f.OldMode == permOf(line)
  ensures err != io.EOF

func parseGitHeaderCreatedMode(f, line, defaultName) (err)
  requires f != nil
  modifies f.IsNew, f.NewName, f.NewMode
  allocates
  ensures[head] err == nil <==> permOK(line)
  ensures[head] err == nil ==> f.IsNew && f.NewName == defaultName && f.NewMode == permOf(line)
  ensures err != io.EOF

func parseGitHeaderCopyFrom(f, line, defaultName) (err)
  requires f != nil
  modifies f.IsCopy, f.OldName
  allocates
  ensures[head] err == nil <==> nmOK(line, 0)
  ensures[head] err == nil ==> f.IsCopy && f.OldName == nmOf(line, 0, 0)
  ensures err != io.EOF

func parseGitHeaderCopyTo(f, line, defaultName) (err)
  requires f != nil
  modifies f.IsCopy, f.NewName
  allocates
  ensures[head] err == nil <==> nmOK(line, 0)
  ensures[head] err == nil ==> f.IsCopy && f.NewName == nmOf(line, 0, 0)
  ensures err != io.EOF

func parseGitHeaderRenameFrom(f, line, defaultName) (err)
  requires f != nil
  modifies f.IsRename, f.OldName
  allocates
  ensures[head] err == nil <==> nmOK(line, 0)
  ensures[head] err == nil ==> f.IsRename && f.OldName == nmOf(line, 0, 0)
  ensures err != io.EOF

func parseGitHeaderRenameTo(f, line, defaultName) (err)
  requires f != nil
  modifies f.IsRename, f.NewName
  allocates
  ensures[head] err == nil <==> nmOK(line, 0)
  ensures[head] err == nil ==> f.IsRename && f.NewName == nmOf(line, 0, 0)
  ensures err != io.EOF

func verifyGitHeaderName(parsed, existing, isNull, side) (err)
  allocates
  ensures err == nil <==> !(existing != "" && (isNull || existing != parsed)) && !(isNull && parsed != "/dev/null")
  ensures err != io.EOF

// l is not a line of an extended git header
opaque pred gitEndBare(b: []byte): bool = !(hasPre(b, "--- ") || hasPre(b, "+++ ") || hasPre(b, "old mode ") || hasPre(b, "new mode ") || hasPre(b, "deleted file mode ") || hasPre(b, "new file mode ")
  | || hasPre(b, "copy from ") || hasPre(b, "copy to ") || hasPre(b, "rename old ") || hasPre(b, "rename new ") || hasPre(b, "rename from ") || hasPre(b, "rename to ")
  | || hasPre(b, "similarity index ") || hasPre(b, "dissimilarity index ") || hasPre(b, "index "))
opaque pred gitEnd(l: []byte): bool = gitEndBare(trimSuf(l, "\n"))

func parseGitHeaderData(f, line, defaultName) (end, err)
  requires f != nil
  uses reveal:gitEndBare reveal:gitEnd
  uses reveal:bareOK reveal:bareNext
  ensures[head] err == nil <==> lineOK(old(headVal(f)), old(line))
  ensures[head] err == nil ==> headVal(f) == lineNext(old(headVal(f)), old(line), defaultName)
  ensures[content] err == nil ==> (end <==> gitEnd(old(line)))
  modifies f.OldName, f.NewName, f.OldMode, f.NewMode, f.IsNew, f.IsDelete, f.IsCopy, f.IsRename, f.Score, f.OldOIDPrefix, f.NewOIDPrefix
  allocates
  ensures[names] old(f.Score) <= 100 ==> f.Score <= 100
  ensures len(line) == 0 ==> end && err == nil
  ensures err != io.EOF

pred afterSlash(s: []byte, n: int, i: int): int = if i >= len(s) || n <= 0 then i else afterSlash(s, (if s[i] == '/' then n-1 else n), i+1)

func trimTreePrefix(name, n) (r)
  ensures r == name[afterSlash(name, n, 0):]
  local i int
  loop 1
    invariant 0 <= i <= len(name) && afterSlash(name, old(n), 0) == afterSlash(name, n, i)

func parseGitHeaderName(header) (name, err)
  allocates
  uses reveal:dnOK reveal:dnOf findBounds
  ensures[head] err == nil <==> dnOK(trimSuf(old(header), "\n"))
  ensures[head] err == nil ==> name == dnOf(trimSuf(old(header), "\n"))
  ensures err != io.EOF
  local n int
  local i int
  local first string
  loop 1
    invariant 0 <= n <= len(header)
    invariant[head] skipWs(header, quoteEnd(header, 1, false)) == skipWs(header, n)
    decreases len(header) - n
  loop 2
    pre[head] use twiceStep(first, 0)
    invariant[head] 0 <= i && twice(first, 0) == twice(first, i)
    body[head] use twiceStep(first, i)


// ---- file headers

opaque pred isGitHead(l: []byte): bool = hasPre(l, "diff --git ")
opaque pred isTradHead(l: []byte, m: []byte, n: []byte): bool = hasPre(l, "--- ") && hasPre(m, "+++ ") && len(n) >= 12 && hasPre(n, "@@ -")
pred headAt(c: []byte, k: int): bool = isGitHead(lineAt(c, k)) || isTradHead(lineAt(c, k), lineAt(c, k+1), lineAt(c, k+2))
// what every parsed file satisfies
pred fileNames(f: *File): bool = (f.NewName != "" || f.IsDelete) && (f.OldName != "" || f.IsNew)
pred fileHead(f: *File): bool = fileNames(f) && f.Score <= 100 && noBinary(f) && len(f.TextFragments) == 0

// the first line at or after k that is not part of an extended git header
opaque pred gitHeadEnd(c: []byte, k: int): int = if gitEnd(lineAt(c, k)) then k else gitHeadEnd(c, k+1)
// the line after the file header that starts at line h
opaque pred headEnd(c: []byte, h: int): int = if isGitHead(lineAt(c, h)) then gitHeadEnd(c, h+1) else h+2

lemma gitHeadEndStep(c: []byte, k: int)
  ensures gitEnd(lineAt(c, k)) ==> gitHeadEnd(c, k) == k
  ensures !gitEnd(lineAt(c, k)) ==> gitHeadEnd(c, k) == gitHeadEnd(c, k+1)
  uses reveal:gitHeadEnd

lemma gitEndEmpty(l: []byte)
  requires len(l) == 0
  ensures gitEnd(l)
  uses reveal:gitEnd reveal:gitEndBare

lemma headsApart(l: []byte, m: []byte, n: []byte)
  ensures !(isGitHead(l) && isTradHead(l, m, n))
  uses reveal:isGitHead reveal:isTradHead

func (*parser).ParseGitFileHeader() (f, err)
  requires pInv(recv)
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses group:lines reveal:isGitHead reveal:headEnd reveal:headParses reveal:headFields
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err != io.EOF
  ensures[content] err == nil && f == nil ==> !isGitHead(old(recv.lines[0]))
  ensures[io] err == nil && f == nil ==> iofail == old(iofail)
  ensures err == nil && f == nil ==> recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof) && spos(recv.r) == old(spos(recv.r))
  ensures err == nil ==> pInv(recv)
  ensures f != nil ==> err == nil && fresh(f) && cur(recv) > old(cur(recv))
  ensures[names] f != nil ==> fileHead(f)
  ensures f != nil ==> noBinary(f) && len(f.TextFragments) == 0
  ensures[content] f != nil ==> isGitHead(old(recv.lines[0])) && cur(recv) == headEnd(pin(recv), old(cur(recv)))
  ensures[content] err != nil ==> isGitHead(old(recv.lines[0]))
  ensures[head] err != nil && !iofail ==> !headParses(pin(recv), old(cur(recv)))
  ensures[head] f != nil ==> headParses(pin(recv), old(cur(recv))) && headVal(f) == headFields(pin(recv), old(cur(recv)))
  ensures f != nil ==> lineStart(pin(recv), old(cur(recv))) < lineStart(pin(recv), cur(recv))
  local f *File
  local defaultName string
  loop 1
    invariant pInv(recv) && !recv.eof && pin(recv) == old(pin(recv)) && cur(recv) >= old(cur(recv))
    invariant[io] iofail == old(iofail)
    invariant f != nil && fresh(f) && noBinary(f) && len(f.TextFragments) == 0
    invariant[names] f.Score <= 100
    invariant[content] gitHeadEnd(pin(recv), old(cur(recv))+1) == gitHeadEnd(pin(recv), cur(recv)+1)
    invariant[head] defaultName == defName(pin(recv), old(cur(recv))) && dnOK(headArg(lineAt(pin(recv), old(cur(recv)))))
    invariant[head] ghState(pin(recv), old(cur(recv))+1, noHead(), defaultName) == ghState(pin(recv), cur(recv)+1, headVal(f), defaultName)
    invariant[head] ghOK(pin(recv), old(cur(recv))+1, noHead(), defaultName) <==> ghOK(pin(recv), cur(recv)+1, headVal(f), defaultName)
    body[head] use ghStep(pin(recv), cur(recv)+1, headVal(f), defaultName)
    body[head] use gitEndKeeps(headVal(f), recv.lines[1], defaultName)
    body[content] use gitHeadEndStep(pin(recv), cur(recv)+1)
    body[content] use gitEndEmpty(recv.lines[1])
    decreases len(pin(recv)) - lineStart(pin(recv), cur(recv))


func hasEpochTimestamp(s) (r)
  allocates

func (*parser).ParseTraditionalFileHeader() (f, err)
  requires pInv(recv)
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses group:lines reveal:isTradHead reveal:isGitHead reveal:headEnd
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err != io.EOF
  ensures[content] err == nil && f == nil ==> !isTradHead(old(recv.lines[0]), old(recv.lines[1]), old(recv.lines[2]))
  ensures[io] err == nil && f == nil ==> iofail == old(iofail)
  ensures err == nil && f == nil ==> recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof) && spos(recv.r) == old(spos(recv.r))
  ensures err == nil ==> pInv(recv)
  ensures f != nil ==> err == nil && fresh(f) && cur(recv) == old(cur(recv)) + 2
  ensures[names] f != nil ==> fileHead(f)
  ensures f != nil ==> noBinary(f) && len(f.TextFragments) == 0
  ensures[content] f != nil ==> isTradHead(old(recv.lines[0]), old(recv.lines[1]), old(recv.lines[2])) && cur(recv) == headEnd(pin(recv), old(cur(recv)))
  ensures[content] err != nil ==> isTradHead(old(recv.lines[0]), old(recv.lines[1]), old(recv.lines[2]))
  ensures f != nil ==> lineStart(pin(recv), old(cur(recv))) < lineStart(pin(recv), cur(recv))

// the first line at or after k that starts a file or a stray fragment, or lies beyond the input
pred stopAt(c: []byte, k: int): bool = headAt(c, k) || hdrOK(lineAt(c, k)) || lineStart(c, k) >= len(c)
opaque pred firstHead(c: []byte, k: int): int = if stopAt(c, k) then k else firstHead(c, k+1)

lemma firstHeadStep(c: []byte, k: int)
  ensures stopAt(c, k) ==> firstHead(c, k) == k
  ensures !stopAt(c, k) ==> firstHead(c, k) == firstHead(c, k+1)
  uses reveal:firstHead

lemma hdrNotHead(l: []byte, m: []byte, n: []byte)
  requires isHdr(l)
  ensures !isGitHead(l) && !isTradHead(l, m, n) && len(l) > 0
  uses reveal:isGitHead reveal:isTradHead

lemma hdrOKIs(l: []byte)
  ensures hdrOK(l) ==> isHdr(l)
  uses reveal:hdrOK

func (*parser).ParseNextFileHeader() (f, preamble, err)
  requires pInv(recv)
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses group:lines
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err != io.EOF
  ensures err == nil ==> pInv(recv)
  ensures[content] err == nil ==> preamble == pin(recv)[lineStart(pin(recv), old(cur(recv))):lineStart(pin(recv), firstHead(pin(recv), old(cur(recv))))]
  ensures f != nil ==> err == nil && fresh(f)
  ensures[names] f != nil ==> fileHead(f)
  ensures f != nil ==> noBinary(f) && len(f.TextFragments) == 0
  ensures[content] f != nil ==> headAt(pin(recv), firstHead(pin(recv), old(cur(recv)))) && cur(recv) == headEnd(pin(recv), firstHead(pin(recv), old(cur(recv)))) && cur(recv) > firstHead(pin(recv), old(cur(recv))) && firstHead(pin(recv), old(cur(recv))) >= old(cur(recv))
  ensures f != nil ==> lineStart(pin(recv), old(cur(recv))) < lineStart(pin(recv), cur(recv))
  ensures err == nil && f == nil ==> recv.eof
  ensures[content] err == nil && f == nil ==> lineStart(pin(recv), firstHead(pin(recv), old(cur(recv)))) >= len(pin(recv))
  ensures[content] err != nil && !iofail ==> headAt(pin(recv), firstHead(pin(recv), old(cur(recv)))) || hdrOK(lineAt(pin(recv), firstHead(pin(recv), old(cur(recv)))))
  ensures[head] f != nil && isGitHead(lineAt(pin(recv), firstHead(pin(recv), old(cur(recv))))) ==> headParses(pin(recv), firstHead(pin(recv), old(cur(recv)))) && headVal(f) == headFields(pin(recv), firstHead(pin(recv), old(cur(recv))))
  ensures[head] err != nil && !iofail && isGitHead(lineAt(pin(recv), firstHead(pin(recv), old(cur(recv))))) ==> !headParses(pin(recv), firstHead(pin(recv), old(cur(recv))))
  local preamble *strings.Builder
  loop 1
    invariant pInv(recv) && pin(recv) == old(pin(recv)) && cur(recv) >= old(cur(recv))
    invariant[io] iofail == old(iofail)
    invariant[content] firstHead(pin(recv), old(cur(recv))) == firstHead(pin(recv), cur(recv))
    invariant[content] preamble == pin(recv)[lineStart(pin(recv), old(cur(recv))):lineStart(pin(recv), cur(recv))]
    invariant lineStart(pin(recv), old(cur(recv))) <= lineStart(pin(recv), cur(recv))
    body[content] use firstHeadStep(pin(recv), cur(recv))
    body[content] use hdrOKIs(recv.lines[0])
    body[content] use hdrNotHead(recv.lines[0], recv.lines[1], recv.lines[2])
    decreases len(pin(recv)) - lineStart(pin(recv), cur(recv))

prop T3 (*parser).ParseTextFragments (*parser).ParseNextFileHeader kinds=all
