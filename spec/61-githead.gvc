// What the lines of a git file header mean. The header fields of a file are kept as a File value.

pred hv(old: []byte, new: []byte, isNew: bool, isDel: bool, isCopy: bool, isRename: bool, om: int, nm: int, oo: []byte, no: []byte, score: int): File = mk(File, old, new, isNew, isDel, isCopy, isRename, om, nm, oo, no, score, zero(File).TextFragments, false, 0, 0)
pred headVal(f: *File): File = hv(f.OldName, f.NewName, f.IsNew, f.IsDelete, f.IsCopy, f.IsRename, f.OldMode, f.NewMode, f.OldOIDPrefix, f.NewOIDPrefix, f.Score)
pred setOld(s: File, v: []byte): File = hv(v, s.NewName, s.IsNew, s.IsDelete, s.IsCopy, s.IsRename, s.OldMode, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setNew(s: File, v: []byte): File = hv(s.OldName, v, s.IsNew, s.IsDelete, s.IsCopy, s.IsRename, s.OldMode, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setOldMode(s: File, v: int): File = hv(s.OldName, s.NewName, s.IsNew, s.IsDelete, s.IsCopy, s.IsRename, v, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setNewMode(s: File, v: int): File = hv(s.OldName, s.NewName, s.IsNew, s.IsDelete, s.IsCopy, s.IsRename, s.OldMode, v, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setDeleted(s: File, d: []byte, v: int): File = hv(d, s.NewName, s.IsNew, true, s.IsCopy, s.IsRename, v, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setCreated(s: File, d: []byte, v: int): File = hv(s.OldName, d, true, s.IsDelete, s.IsCopy, s.IsRename, s.OldMode, v, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setCopyFrom(s: File, v: []byte): File = hv(v, s.NewName, s.IsNew, s.IsDelete, true, s.IsRename, s.OldMode, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setCopyTo(s: File, v: []byte): File = hv(s.OldName, v, s.IsNew, s.IsDelete, true, s.IsRename, s.OldMode, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setRenameFrom(s: File, v: []byte): File = hv(v, s.NewName, s.IsNew, s.IsDelete, s.IsCopy, true, s.OldMode, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setRenameTo(s: File, v: []byte): File = hv(s.OldName, v, s.IsNew, s.IsDelete, s.IsCopy, true, s.OldMode, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, s.Score)
pred setScore(s: File, v: int): File = hv(s.OldName, s.NewName, s.IsNew, s.IsDelete, s.IsCopy, s.IsRename, s.OldMode, s.NewMode, s.OldOIDPrefix, s.NewOIDPrefix, v)
pred setIndex(s: File, o: []byte, n: []byte, v: int): File = hv(s.OldName, s.NewName, s.IsNew, s.IsDelete, s.IsCopy, s.IsRename, v, s.NewMode, o, n, s.Score)

pred permOK(l: []byte): bool = numOK(8, 32, trimmed(l))
pred permVal(s: []byte): int = if numVal(8, s) < 0 then numVal(8, s) + 4294967296 else numVal(8, s)
pred permOf(l: []byte): int = permVal(trimmed(l))
pred sameName(parsed: []byte, existing: []byte, isNull: bool): bool = !(existing != "" && (isNull || existing != parsed)) && !(isNull && parsed != "/dev/null")
pred oldSet(s: File): bool = s.OldName == "" && !s.IsNew
pred newSet(s: File): bool = s.NewName == "" && !s.IsDelete
opaque pred scoreOK(l: []byte): bool = numOK(10, 32, trimSuf(l, "%"))
opaque pred scoreOf(l: []byte, was: int): int = if numVal(10, trimSuf(l, "%")) <= 100 then numVal(10, trimSuf(l, "%")) else was
// the two parts of an index line
opaque pred idxIDs(l: []byte): []byte = if find(l, " ", 0) < 0 then l else l[:find(l, " ", 0)]
opaque pred idxHasMode(l: []byte): bool = find(l, " ", 0) >= 0
opaque pred idxMode(l: []byte): []byte = l[find(l, " ", 0)+1:]
opaque pred idsOK(s: []byte): bool = find(s, "..", 0) >= 0
opaque pred idsOld(s: []byte): []byte = s[:find(s, "..", 0)]
opaque pred idsNew(s: []byte): []byte = s[find(s, "..", 0)+2:]
pred indexOK(l: []byte): bool = idsOK(idxIDs(l)) && (idxHasMode(l) ==> permOK(idxMode(l)))
pred afterIndex(s: File, l: []byte): File = setIndex(s, idsOld(idxIDs(l)), idsNew(idxIDs(l)), if idxHasMode(l) then permOf(idxMode(l)) else s.OldMode)

// bare header line b is well formed, and what it makes of s
opaque pred bareOK(s: File, b: []byte): bool = if hasPre(b, "@@ -") then true
  | else if hasPre(b, "--- ") then nmOK(b[4:], 9) && (oldSet(s) || sameName(nmOf(b[4:], 9, 1), s.OldName, s.IsNew))
  | else if hasPre(b, "+++ ") then nmOK(b[4:], 9) && (newSet(s) || sameName(nmOf(b[4:], 9, 1), s.NewName, s.IsDelete))
  | else if hasPre(b, "old mode ") then permOK(b[9:])
  | else if hasPre(b, "new mode ") then permOK(b[9:])
  | else if hasPre(b, "deleted file mode ") then permOK(b[18:])
  | else if hasPre(b, "new file mode ") then permOK(b[14:])
  | else if hasPre(b, "copy from ") then nmOK(b[10:], 0)
  | else if hasPre(b, "copy to ") then nmOK(b[8:], 0)
  | else if hasPre(b, "rename old ") then nmOK(b[11:], 0)
  | else if hasPre(b, "rename new ") then nmOK(b[11:], 0)
  | else if hasPre(b, "rename from ") then nmOK(b[12:], 0)
  | else if hasPre(b, "rename to ") then nmOK(b[10:], 0)
  | else if hasPre(b, "similarity index ") then scoreOK(b[17:])
  | else if hasPre(b, "dissimilarity index ") then scoreOK(b[20:])
  | else if hasPre(b, "index ") then indexOK(b[6:])
  | else true
opaque pred bareNext(s: File, b: []byte, d: []byte): File = if hasPre(b, "@@ -") then s
  | else if hasPre(b, "--- ") then (if oldSet(s) then setOld(s, nmOf(b[4:], 9, 1)) else s)
  | else if hasPre(b, "+++ ") then (if newSet(s) then setNew(s, nmOf(b[4:], 9, 1)) else s)
  | else if hasPre(b, "old mode ") then setOldMode(s, permOf(b[9:]))
  | else if hasPre(b, "new mode ") then setNewMode(s, permOf(b[9:]))
  | else if hasPre(b, "deleted file mode ") then setDeleted(s, d, permOf(b[18:]))
  | else if hasPre(b, "new file mode ") then setCreated(s, d, permOf(b[14:]))
  | else if hasPre(b, "copy from ") then setCopyFrom(s, nmOf(b[10:], 0, 0))
  | else if hasPre(b, "copy to ") then setCopyTo(s, nmOf(b[8:], 0, 0))
  | else if hasPre(b, "rename old ") then setRenameFrom(s, nmOf(b[11:], 0, 0))
  | else if hasPre(b, "rename new ") then setRenameTo(s, nmOf(b[11:], 0, 0))
  | else if hasPre(b, "rename from ") then setRenameFrom(s, nmOf(b[12:], 0, 0))
  | else if hasPre(b, "rename to ") then setRenameTo(s, nmOf(b[10:], 0, 0))
  | else if hasPre(b, "similarity index ") then setScore(s, scoreOf(b[17:], s.Score))
  | else if hasPre(b, "dissimilarity index ") then setScore(s, scoreOf(b[20:], s.Score))
  | else if hasPre(b, "index ") then afterIndex(s, b[6:])
  | else s
pred lineOK(s: File, l: []byte): bool = bareOK(s, trimSuf(l, "\n"))
pred lineNext(s: File, l: []byte, d: []byte): File = bareNext(s, trimSuf(l, "\n"), d)

// the fields after the header lines from line k on, and whether all of those are well formed
opaque pred ghState(c: []byte, k: int, s: File, d: []byte): File = if gitEnd(lineAt(c, k)) then s else ghState(c, k+1, lineNext(s, lineAt(c, k), d), d)
opaque pred ghOK(c: []byte, k: int, s: File, d: []byte): bool = lineOK(s, lineAt(c, k)) && (gitEnd(lineAt(c, k)) || ghOK(c, k+1, lineNext(s, lineAt(c, k), d), d))
lemma ghStep(c: []byte, k: int, s: File, d: []byte)
  ensures gitEnd(lineAt(c, k)) ==> ghState(c, k, s, d) == s && (ghOK(c, k, s, d) <==> lineOK(s, lineAt(c, k)))
  ensures !gitEnd(lineAt(c, k)) ==> ghState(c, k, s, d) == ghState(c, k+1, lineNext(s, lineAt(c, k), d), d) && (ghOK(c, k, s, d) <==> lineOK(s, lineAt(c, k)) && ghOK(c, k+1, lineNext(s, lineAt(c, k), d), d))
  uses reveal:ghState reveal:ghOK

lemma gitEndKeeps(s: File, l: []byte, d: []byte)
  requires gitEnd(l)
  ensures lineNext(s, l, d) == s && lineOK(s, l)
  uses reveal:gitEnd reveal:gitEndBare reveal:bareOK reveal:bareNext

// the name on the first line of the header
pred afterFirst(s: []byte): []byte = s[afterSlash(s, 1, 0):]
pred skipWs(s: []byte, i: int): int = if i >= len(s) || !spaceB(s[i]) then i else skipWs(s, i+1)
opaque pred twice(s: []byte, i: int): []byte = if i >= len(s)-1 then empty() else if spaceB(s[i]) && s[:i] == afterFirst(s[i+1:]) then s[:i] else twice(s, i+1)
lemma twiceStep(s: []byte, i: int)
  ensures i >= len(s)-1 ==> twice(s, i) == empty()
  ensures i < len(s)-1 ==> twice(s, i) == (if spaceB(s[i]) && s[:i] == afterFirst(s[i+1:]) then s[:i] else twice(s, i+1))
  uses reveal:twice
pred qOK(s: []byte): bool = quoteEnd(s, 1, false) != 2 && unquoteOK(s[:quoteEnd(s, 1, false)])
pred qName(s: []byte): []byte = unquoted(s[:quoteEnd(s, 1, false)])
pred oneName(a: []byte, b: []byte): []byte = if afterFirst(a) == afterFirst(b) then afterFirst(a) else empty()
pred dnQuoted(s: []byte, n: int): bool = n < len(s) && s[n] == '"'
opaque pred dnOK(s: []byte): bool = if find(s, "\"", 0) < 0 then true
  | else if find(s, "\"", 0) > 0 then spaceB(s[find(s, "\"", 0)-1]) && qOK(s[find(s, "\"", 0):])
  | else qOK(s) && (dnQuoted(s, skipWs(s, quoteEnd(s, 1, false))) ==> qOK(s[skipWs(s, quoteEnd(s, 1, false)):]))
opaque pred dnOf(s: []byte): []byte = if find(s, "\"", 0) < 0 then twice(afterFirst(s), 0)
  | else if find(s, "\"", 0) > 0 then oneName(s[:find(s, "\"", 0)-1], qName(s[find(s, "\"", 0):]))
  | else if skipWs(s, quoteEnd(s, 1, false)) >= len(s) then empty()
  | else oneName(qName(s), if dnQuoted(s, skipWs(s, quoteEnd(s, 1, false))) then qName(s[skipWs(s, quoteEnd(s, 1, false)):]) else s[skipWs(s, quoteEnd(s, 1, false)):])
pred headArg(l: []byte): []byte = trimSuf(l[11:], "\n")
pred defName(c: []byte, h: int): []byte = dnOf(headArg(lineAt(c, h)))
// the default name stands in where the header lines give none
pred named(s: File, d: []byte): File = if s.OldName == "" && s.NewName == "" then setNew(setOld(s, d), d) else s
pred namedOK(s: File): bool = !(s.NewName == "" && !s.IsDelete) && !(s.OldName == "" && !s.IsNew) && !(s.OldName == "" && s.NewName == "")
pred noHead(): File = hv(empty(), empty(), false, false, false, false, 0, 0, empty(), empty(), 0)
// the header that starts at line h is well formed, and its fields
opaque pred headParses(c: []byte, h: int): bool = dnOK(headArg(lineAt(c, h))) && ghOK(c, h+1, noHead(), defName(c, h)) && namedOK(named(ghState(c, h+1, noHead(), defName(c, h)), defName(c, h)))
opaque pred headFields(c: []byte, h: int): File = named(ghState(c, h+1, noHead(), defName(c, h)), defName(c, h))
