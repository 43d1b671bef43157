// Applying text fragments.

pred isConflict(e: error) = e.(*ApplyError) && as("*ApplyError", e).err.(*Conflict)

func applyError(err, args) (e)
  wraps
  modifies as("*ApplyError", err).Line, as("*ApplyError", err).Fragment, as("*ApplyError", err).FragmentLine
  allocates
  ensures e == nil <==> err == nil
  ensures err != nil ==> e.(*ApplyError)
  ensures err.(*ApplyError) ==> e == err
  ensures err != nil && !err.(*ApplyError) ==> fresh(e) && as("*ApplyError", e).err == (if err == io.EOF then io.ErrUnexpectedEOF else err)
  loop 1
    invariant forall q: *ApplyError {q.err} :: allocated(q) ==> q.err == pre(q.err)

// the text the new (old) lines contribute
pred newText(ls: []Line, i: int): []byte = if i <= 0 then empty() else newText(ls, i-1) ++ (if isNewOp(ls[i-1].Op) then ls[i-1].Line else empty())

// zero-indexed source line at which a fragment starts
pred fragStartOf(f: *TextFragment): int = if f.OldPosition <= 0 then 0 else if f.OldLines == 0 then f.OldPosition else f.OldPosition - 1

// the first i lines of ls match the lines of c from line base on
pred matchesTo(c: []byte, ls: []Line, i: int, base: int) = forall j {ls[j]} {cntOld(ls, j)} :: 0 <= j < i && isOldOp(ls[j].Op) ==> ls[j].Line == lineAt(c, base + cntOld(ls, j))

pred boundsOK(f: *TextFragment) = fragStartOf(f) + f.OldLines <= 9223372036854775807

// f applies to c when `from` lines have been consumed
opaque pred applies(c: []byte, f: *TextFragment, from: int) = validFrag(f) && boundsOK(f) && from <= fragStartOf(f)
  | && (f.OldPosition == 0 ==> len(c) == 0)
  | && hasLines(c, fragStartOf(f) + f.OldLines)
  | && matchesTo(c, f.Lines, len(f.Lines), fragStartOf(f))
  | && (f.NewPosition == 0 && f.NewLines == 0 ==> !hasLines(c, fragStartOf(f) + f.OldLines + 1))

lemma @auto cntOldStep(ls: []Line, i: int, j: int)
  requires 0 <= i <= j
  ensures 0 <= cntOld(ls, i) <= cntOld(ls, j) <= j
  trigger cntOld(ls, i), cntOld(ls, j)
  decreases j
  proof case j <= 0
  proof case i == j
  proof use cntOldStep(ls, i, j-1)
  proof use cntOldStep(ls, j-1, j-1)

func readPreimage(r, start, lines) (pre, err)
  requires lsOK(r) && 0 <= start && 0 <= lines && start + lines <= 9223372036854775807
  modifies iofail, as("*lineReaderAt", r).index, as("*lineReaderAt", r).eof
  allocates
  uses group:lines
  ensures lsOK(r)
  ensures err == nil ==> len(pre) == lines && (lines > 0 ==> hasLines(lsrc(r), start+lines))
  ensures err == nil ==> forall k {pre[k]} {lineStart(lsrc(r), start+k)} :: 0 <= k < lines ==> pre[k] == lineAt(lsrc(r), start+k)
  ensures !iofail ==> (err == nil <==> lines == 0 || hasLines(lsrc(r), start+lines))
  ensures err != nil ==> err.(*ApplyError) && fresh(err)
  ensures !iofail && err != nil ==> isConflict(err)
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  local start int64
  local remaining int64
  local preimage [][]byte
  local c int64
  loop 1
    invariant lsOK(r)
    invariant iofail <==> old(iofail)
    invariant start == old(start) + len(preimage)
    invariant remaining == old(lines) - len(preimage)
    invariant 0 <= remaining && len(preimage) <= old(lines)
    invariant 0 <= c && len(preimage) == min(4096*c, old(lines))
    invariant len(preimage) > 0 ==> hasLines(lsrc(r), start)
    invariant forall k {preimage[k]} {lineStart(lsrc(r), old(start)+k)} :: 0 <= k < len(preimage) ==> preimage[k] == lineAt(lsrc(r), old(start)+k)

func applyTextLine(dst, line, preimage, i) (err)
  requires plainW(dst) && (isOldOp(line.Op) ==> 0 <= i < len(preimage))
  modifies out(dst), iofail
  allocates
  ensures !err.(*ApplyError)
  ensures isOldOp(line.Op) && preimage[i] != line.Line ==> err.(*Conflict) && fresh(err) && out(dst) == old(out(dst)) && iofail == old(iofail)
  ensures !(isOldOp(line.Op) && preimage[i] != line.Line) ==> (iofail <==> old(iofail) || err != nil)
  ensures err == nil ==> out(dst) == old(out(dst)) ++ (if isNewOp(line.Op) then line.Line else empty())

pred taInv(a: *TextApplier) = a != nil && plainW(a.dst) && a.src != nil && lsOK(a.lineSrc) && lsrc(a.lineSrc) == content(a.src)
  | && 0 <= a.nextLine && hasLines(content(a.src), a.nextLine)

func (*TextApplier).ApplyFragment(f) (err)
  requires taInv(recv)
  modifies recv.dirty, recv.nextLine, out(recv.dst), iofail, as("*lineReaderAt", recv.lineSrc).index, as("*lineReaderAt", recv.lineSrc).eof
  allocates
  uses group:lines cntOldStep reveal:applies
  ensures taInv(recv)
  ensures recv.dirty == (old(recv.dirty) || !recv.closed)
  ensures err == nil ==> !recv.closed && applies(content(recv.src), f, old(recv.nextLine))
  ensures err == nil ==> recv.nextLine == fragStartOf(f) + f.OldLines
  ensures err == nil ==> out(recv.dst) == old(out(recv.dst)) ++ content(recv.src)[lineStart(content(recv.src), old(recv.nextLine)):lineStart(content(recv.src), fragStartOf(f))] ++ newText(f.Lines, len(f.Lines))
  ensures !iofail ==> (err == nil <==> !recv.closed && applies(content(recv.src), f, old(recv.nextLine)))
  ensures !iofail && err != nil && !recv.closed && validFrag(f) && boundsOK(f) ==> isConflict(err)
  ensures err != nil ==> err.(*ApplyError) && fresh(err)
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  ensures err != nil && !iofail && !recv.closed ==> recv.nextLine == old(recv.nextLine) && out(recv.dst) == old(out(recv.dst))
  | || f != nil && (exists j {cntOld(f.Lines, j)} :: 0 <= j <= len(f.Lines) && recv.nextLine == fragStartOf(f) + cntOld(f.Lines, j)
  | && out(recv.dst) == old(out(recv.dst)) ++ content(recv.src)[lineStart(content(recv.src), old(recv.nextLine)):lineStart(content(recv.src), fragStartOf(f))] ++ newText(f.Lines, j))
  ensures recv.closed ==> err != nil && out(recv.dst) == old(out(recv.dst)) && recv.nextLine == old(recv.nextLine) && iofail == old(iofail)
  local used int64
  local preimage [][]byte
  local start int64
  local fragStart int64
  loop 1
    invariant iofail == pre(iofail)
    invariant out(recv.dst) == pre(out(recv.dst)) ++ content(recv.src)[lineStart(content(recv.src), old(recv.nextLine)):lineStart(content(recv.src), old(recv.nextLine) + $i)]
  loop 2
    body use cntOldStep(f.Lines, $i+1, len(f.Lines))
    invariant iofail == pre(iofail)
    invariant used == cntOld(f.Lines, $i)
    invariant matchesTo(content(recv.src), f.Lines, $i, fragStartOf(f))
    invariant out(recv.dst) == pre(out(recv.dst)) ++ newText(f.Lines, $i)

func (*TextApplier).Close() (err)
  requires taInv(recv)
  modifies recv.closed, out(recv.dst), iofail, as("*lineReaderAt", recv.lineSrc).index, as("*lineReaderAt", recv.lineSrc).eof
  allocates
  uses group:lines
  ensures taInv(recv) && recv.closed
  ensures !err.(*ApplyError)
  ensures iofail <==> old(iofail) || err != nil
  ensures old(recv.closed) ==> err == nil && out(recv.dst) == old(out(recv.dst))
  ensures err == nil && !old(recv.closed) && recv.dirty ==> out(recv.dst) == old(out(recv.dst)) ++ content(recv.src)[lineStart(content(recv.src), recv.nextLine):]
  ensures err == nil && !old(recv.closed) && !recv.dirty ==> out(recv.dst) == old(out(recv.dst)) ++ content(recv.src)

