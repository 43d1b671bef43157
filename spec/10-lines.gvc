// Counting the lines of a text fragment.

pred isOldOp(op: int) = op == 0 || op == 1
pred isNewOp(op: int) = op == 0 || op == 2

// how many of the first i lines belong to the old (new) content, are added, deleted
pred cntOld(ls: []Line, i: int): int = if i <= 0 then 0 else cntOld(ls, i-1) + (if isOldOp(ls[i-1].Op) then 1 else 0)
pred cntNew(ls: []Line, i: int): int = if i <= 0 then 0 else cntNew(ls, i-1) + (if isNewOp(ls[i-1].Op) then 1 else 0)
pred cntAdd(ls: []Line, i: int): int = if i <= 0 then 0 else cntAdd(ls, i-1) + (if ls[i-1].Op == 2 then 1 else 0)
pred cntDel(ls: []Line, i: int): int = if i <= 0 then 0 else cntDel(ls, i-1) + (if ls[i-1].Op == 1 then 1 else 0)
// context lines before the first change, and after the last one
pred cntLead(ls: []Line, i: int): int = if i <= 0 then 0 else cntLead(ls, i-1) + (if ls[i-1].Op == 0 && cntAdd(ls, i-1) == 0 && cntDel(ls, i-1) == 0 then 1 else 0)
pred cntTrail(ls: []Line, i: int): int = if i <= 0 then 0 else (if ls[i-1].Op != 0 then 0 else if cntAdd(ls, i-1) == 0 && cntDel(ls, i-1) == 0 then 0 else cntTrail(ls, i-1) + 1)

pred knownOps(ls: []Line) = forall j {ls[j]} :: 0 <= j < len(ls) ==> 0 <= ls[j].Op <= 2

// the fragment's reported counts are those of its lines
pred countsOK(f: *TextFragment) = f.OldLines == cntOld(f.Lines, len(f.Lines)) && f.NewLines == cntNew(f.Lines, len(f.Lines))
  | && f.LeadingContext == cntLead(f.Lines, len(f.Lines)) && f.TrailingContext == cntTrail(f.Lines, len(f.Lines))
  | && f.LinesAdded == cntAdd(f.Lines, len(f.Lines)) && f.LinesDeleted == cntDel(f.Lines, len(f.Lines))

pred validFrag(f: *TextFragment) = f != nil && knownOps(f.Lines) && countsOK(f) && (f.OldPosition == 0 ==> f.OldLines == 0)

func (*TextFragment).Validate() (err)
  allocates
  ensures err == nil <==> validFrag(recv)
  ensures !err.(*ApplyError)
  local oldLines int64
  local newLines int64
  local leadingContext int64
  local trailingContext int64
  local addedLines int64
  local deletedLines int64
  loop 1
    invariant oldLines == cntOld(recv.Lines, $i)
    invariant newLines == cntNew(recv.Lines, $i)
    invariant leadingContext == cntLead(recv.Lines, $i)
    invariant trailingContext == cntTrail(recv.Lines, $i)
    invariant addedLines == cntAdd(recv.Lines, $i)
    invariant deletedLines == cntDel(recv.Lines, $i)
    invariant 0 <= addedLines && 0 <= deletedLines && 0 <= oldLines && 0 <= newLines && 0 <= leadingContext && 0 <= trailingContext
    invariant addedLines <= $i && deletedLines <= $i && oldLines <= $i && newLines <= $i && leadingContext <= $i && trailingContext <= $i
    invariant forall j {recv.Lines[j]} :: 0 <= j < $i ==> 0 <= recv.Lines[j].Op <= 2

prop C16 (*TextFragment).Validate
