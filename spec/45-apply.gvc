// Options, appliers and Apply.

// the byte limit an option sets
extern @pure optLimit(o: ApplyOption): int

extern functype.ApplyOption(opts)
  requires opts != nil
  modifies opts.maxBinaryFragmentBytes
  ensures opts.maxBinaryFragmentBytes == optLimit(recv)

func WithMaxBinaryFragmentBytes(b) (o)
  allocates
  ensures o != nil && optLimit(o) == b

pred limitOf(opts: []ApplyOption): int = if len(opts) == 0 then 104857600 else optLimit(opts[len(opts)-1])
pred optsOK(opts: []ApplyOption) = forall i {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil

func collectApplyOptions(allOpts) (o)
  requires optsOK(allOpts)
  allocates
  ensures o.maxBinaryFragmentBytes == limitOf(allOpts)
  local opts applyOptions
  loop 1
    invariant opts.maxBinaryFragmentBytes == (if $i == 0 then 104857600 else optLimit(allOpts[$i-1]))

pred baInv(a: *BinaryApplier) = a != nil && plainW(a.dst) && a.src != nil

func NewBinaryApplier(dst, src, opts) (a)
  requires plainW(dst) && src != nil && optsOK(opts)
  allocates
  fresh a
  ensures baInv(a) && a.dst == dst && a.src == src && !a.closed && !a.dirty && a.opts.maxBinaryFragmentBytes == limitOf(opts)

pred binOK(c: []byte, f: *BinaryFragment, limit: int) = (limit < 0 || f.Size <= limit) && dataOK(f.RawData, f.Size)
  | && (f.Method == 1 || f.Method == 0 && deltaOK(c, inflated(f.RawData), limit))
pred binOut(c: []byte, f: *BinaryFragment): []byte = if f.Method == 1 then inflated(f.RawData) else dout(c, dInstr(inflated(f.RawData)))

func (*BinaryApplier).ApplyFragment(f) (err)
  requires baInv(recv)
  modifies recv.dirty, out(recv.dst), iofail
  allocates
  ensures baInv(recv)
  ensures recv.dirty == (old(recv.dirty) || f != nil && !recv.closed)
  ensures f == nil || recv.closed || old(recv.dirty) ==> err != nil && out(recv.dst) == old(out(recv.dst)) && (iofail <==> old(iofail))
  ensures err == nil ==> f != nil && binOK(content(recv.src), f, recv.opts.maxBinaryFragmentBytes) && out(recv.dst) == old(out(recv.dst)) ++ binOut(content(recv.src), f)
  ensures !iofail ==> (err == nil <==> f != nil && !recv.closed && !old(recv.dirty) && binOK(content(recv.src), f, recv.opts.maxBinaryFragmentBytes))
  ensures f != nil && recv.opts.maxBinaryFragmentBytes >= 0 && f.Size > recv.opts.maxBinaryFragmentBytes ==> err != nil && out(recv.dst) == old(out(recv.dst))
  ensures f != nil && f.Method == 0 && recv.opts.maxBinaryFragmentBytes >= 0 && dSize(inflated(f.RawData)) > recv.opts.maxBinaryFragmentBytes ==> err != nil && out(recv.dst) == old(out(recv.dst))
  ensures f != nil && f.Method == 0 ==> len(out(recv.dst)) - old(len(out(recv.dst))) <= max(dSize(inflated(f.RawData)), 0)
  ensures f != nil && f.Method == 1 ==> len(out(recv.dst)) - old(len(out(recv.dst))) <= max(f.Size + 1, 0)
  ensures f != nil && f.Method != 0 && f.Method != 1 ==> err != nil && out(recv.dst) == old(out(recv.dst))
  ensures err != nil ==> err.(*ApplyError) && fresh(err)
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail

func (*BinaryApplier).Close() (err)
  requires baInv(recv)
  modifies recv.closed, out(recv.dst), iofail
  ensures baInv(recv) && recv.closed
  ensures iofail <==> old(iofail) || err != nil
  ensures old(recv.closed) || recv.dirty ==> err == nil && out(recv.dst) == old(out(recv.dst))
  ensures err == nil && !old(recv.closed) && !recv.dirty ==> out(recv.dst) == old(out(recv.dst)) ++ content(recv.src)

func NewTextApplier(dst, src, opts) (a)
  requires plainW(dst) && src != nil && optsOK(opts)
  allocates
  fresh a
  uses group:lines reveal:lsrcOf
  ensures taInv(a) && a.dst == dst && a.src == src && !a.closed && !a.dirty && a.nextLine == 0
  ensures a.lineSrc.(*lineReaderAt) ==> fresh(a.lineSrc)

// the end of the old lines of the first i fragments
pred nextAfter(F: []*TextFragment, i: int): int = if i <= 0 then 0 else fragStartOf(F[i-1]) + F[i-1].OldLines
// the output of the first i fragments
pred appliedOut(c: []byte, F: []*TextFragment, i: int): []byte = if i <= 0 then empty() else appliedOut(c, F, i-1)
  | ++ c[lineStart(c, nextAfter(F, i-1)):lineStart(c, fragStartOf(F[i-1]))] ++ newText(F[i-1].Lines, len(F[i-1].Lines))
pred appliesTo(c: []byte, F: []*TextFragment, n: int): bool = forall i {F[i]} :: 0 <= i < n ==> applies(c, F[i], nextAfter(F, i))
extern @pure isPerm(a: []*TextFragment, b: []*TextFragment): bool
pred orderOf(F: []*TextFragment, G: []*TextFragment): bool = isPerm(F, G) && len(F) == len(G) && (forall i, j {F[i], F[j]} :: 0 <= i <= j < len(F) ==> F[i].OldPosition <= F[j].OldPosition)

pred fileOK(f: *File) = f != nil && (forall i {f.TextFragments[i]} :: 0 <= i < len(f.TextFragments) ==> f.TextFragments[i] != nil)
pred fileShape(f: *File) = if f.IsBinary then len(f.TextFragments) == 0 && f.BinaryFragment != nil else f.BinaryFragment == nil

func Apply(dst, src, f, opts) (err)
  requires plainW(dst) && src != nil && fileOK(f) && optsOK(opts)
  modifies out(dst), iofail
  allocates
  ensures !fileShape(f) ==> err != nil && err.(*ApplyError) && out(dst) == old(out(dst)) && (iofail <==> old(iofail))
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  ensures fileShape(f) && f.IsBinary && err == nil ==> binOK(content(src), f.BinaryFragment, limitOf(opts)) && out(dst) == old(out(dst)) ++ binOut(content(src), f.BinaryFragment)
  ensures fileShape(f) && f.IsBinary && !iofail ==> (err == nil <==> binOK(content(src), f.BinaryFragment, limitOf(opts)))
  ensures fileShape(f) && f.IsBinary && limitOf(opts) >= 0 && f.BinaryFragment.Size > limitOf(opts) ==> err != nil && out(dst) == old(out(dst))
  ensures fileShape(f) && f.IsBinary && f.BinaryFragment.Method == 0 && limitOf(opts) >= 0 && dSize(inflated(f.BinaryFragment.RawData)) > limitOf(opts) ==> err != nil && out(dst) == old(out(dst))
  ensures fileShape(f) && f.IsBinary && f.BinaryFragment.Method == 0 ==> len(out(dst)) - old(len(out(dst))) <= max(dSize(inflated(f.BinaryFragment.RawData)), 0)
  ensures fileShape(f) && !f.IsBinary && len(f.TextFragments) == 0 && err == nil ==> out(dst) == old(out(dst)) ++ content(src)
  ensures fileShape(f) && !f.IsBinary && len(f.TextFragments) == 0 && !iofail ==> err == nil
  ensures fileShape(f) && !f.IsBinary && len(f.TextFragments) > 0 && err == nil ==> exists F: []*TextFragment {isPerm(F, f.TextFragments)} :: orderOf(F, f.TextFragments) && appliesTo(content(src), F, len(F))
  | && out(dst) == old(out(dst)) ++ appliedOut(content(src), F, len(F)) ++ content(src)[lineStart(content(src), nextAfter(F, len(F))):]
  ensures fileShape(f) && !f.IsBinary && len(f.TextFragments) > 0 && err != nil && !iofail ==> exists F: []*TextFragment {isPerm(F, f.TextFragments)} :: orderOf(F, f.TextFragments) && !appliesTo(content(src), F, len(F))
  ensures fileShape(f) && !f.IsBinary && len(f.TextFragments) > 0 && err != nil && !iofail && (forall i {f.TextFragments[i]} :: 0 <= i < len(f.TextFragments) ==> validFrag(f.TextFragments[i]) && boundsOK(f.TextFragments[i])) ==> isConflict(err)
  local applier *TextApplier
  local frags []*TextFragment
  loop 1
    invariant taInv(applier) && !applier.closed && (applier.dirty <==> $i > 0) && applier.dst == dst && applier.src == src
    invariant iofail == old(iofail)
    invariant !(applier.lineSrc.(*lineReaderAt)) ==> as("*lineReaderAt", applier.lineSrc).eof == pre(as("*lineReaderAt", applier.lineSrc).eof) && as("*lineReaderAt", applier.lineSrc).index == pre(as("*lineReaderAt", applier.lineSrc).index)
    invariant applier.nextLine == nextAfter(frags, $i)
    invariant appliesTo(content(src), frags, $i)
    invariant out(dst) == old(out(dst)) ++ appliedOut(content(src), frags, $i)

func (*Conflict).Is(other) (r)
  requires recv != nil
  ensures r <==> other.(*Conflict) && (as("*Conflict", other).msg == "" || as("*Conflict", other).msg == recv.msg)

func (*ApplyError).Unwrap() (e)
  requires recv != nil
  ensures e == recv.err

func (*BinaryFragment).Data() (r)
  requires recv != nil
  allocates
  ensures newBR(r) && fresh(r) && brRaw(r) == recv.RawData && brSize(r) == recv.Size && brInv(as("*binaryReader", r))

prop C01 Apply NewTextApplier (*TextApplier).ApplyFragment (*TextApplier).Close
prop C02 Apply NewTextApplier (*TextApplier).ApplyFragment (*TextApplier).Close (*Conflict).Is (*ApplyError).Unwrap
prop C04 NewTextApplier (*TextApplier).ApplyFragment (*TextApplier).Close NewBinaryApplier (*BinaryApplier).ApplyFragment (*BinaryApplier).Close
prop C05 Apply NewBinaryApplier (*BinaryApplier).ApplyFragment
prop C06 Apply NewBinaryApplier (*BinaryApplier).ApplyFragment WithMaxBinaryFragmentBytes
prop C07 (*BinaryFragment).Data (*binaryReader).Read
