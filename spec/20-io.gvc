// Readers, writers and the line structure of a source.

// bytes received so far by a writer
ghostfield out []byte
// some read failed (other than by end-of-file) or some write failed
ghostvar iofail bool

// the bytes an io.ReaderAt or LineReaderAt gives access to; they do not change
extern @pure content(r: any): []byte
axiom contentLen forall r: any {content(r)} :: len(content(r)) <= 4611686018427387904

// end of the line that starts at or contains offset p
pred lineEnd(c: []byte, p: int): int = if p >= len(c) then len(c) else if p < 0 then 0 else if c[p] == '\n' then p+1 else lineEnd(c, p+1)
// start of the zero-indexed line k (the length of c if there is no such line)
pred lineStart(c: []byte, k: int): int = if k <= 0 then 0 else lineEnd(c, lineStart(c, k-1))
// c has at least n lines
pred hasLines(c: []byte, n: int) = n <= 0 || lineStart(c, n-1) < len(c)
// the zero-indexed line k, with its newline
pred lineAt(c: []byte, k: int): []byte = c[lineStart(c,k):lineStart(c,k+1)]

// what a LineReaderAt reads
opaque pred lsrcOf(r: any, rr: any): []byte = if r.(*lineReaderAt) then content(rr) else content(r)
pred lsrc(r: any): []byte = lsrcOf(r, as("*lineReaderAt", r).r)

lemma lsrcLen(r: any, rr: any)
  ensures len(lsrcOf(r, rr)) <= 4611686018427387904
  trigger lsrcOf(r, rr)
  uses reveal:lsrcOf

lemma lineEndBounds(c: []byte, p: int)
  requires 0 <= p <= len(c)
  ensures p <= lineEnd(c, p) <= len(c)
  ensures p < len(c) ==> p < lineEnd(c, p)
  trigger lineEnd(c, p)
  decreases len(c) - p
  proof case p >= len(c)
  proof case c[p] == '\n'
  proof use lineEndBounds(c, p+1)

lemma lineStartBounds(c: []byte, k: int)
  ensures 0 <= lineStart(c, k) <= len(c)
  trigger lineStart(c, k)
  decreases max(k, 0)
  proof case k <= 0
  proof use lineStartBounds(c, k-1)
  proof use lineEndBounds(c, lineStart(c, k-1))

lemma lineStartStep(c: []byte, k: int)
  requires 0 <= k
  ensures lineStart(c, k) <= lineStart(c, k+1)
  ensures lineStart(c, k) < len(c) ==> lineStart(c, k) < lineStart(c, k+1)
  ensures lineStart(c, k) < len(c) ==> k <= lineStart(c, k)
  trigger lineStart(c, k)
  decreases max(k, 0)
  proof use lineStartBounds(c, k)
  proof use lineEndBounds(c, lineStart(c, k))
  proof case k <= 0
  proof use lineStartBounds(c, k-1)
  proof use lineEndBounds(c, lineStart(c, k-1))
  proof use lineStartStep(c, k-1)

lemma lineStartMono(c: []byte, i: int, j: int)
  requires 0 <= i <= j
  ensures lineStart(c, i) <= lineStart(c, j)
  ensures lineStart(c, j) < len(c) && i < j ==> lineStart(c, i) < lineStart(c, j)
  trigger lineStart(c, i), lineStart(c, j)
  decreases j - i
  proof case i == j
  proof use lineStartMono(c, i, j-1)
  proof use lineStartStep(c, j-1)
  proof use lineStartBounds(c, j-1)

group lines lineStartBounds lineStartStep lineStartMono lineEndBounds lsrcLen

iface io.ReaderAt.ReadAt(p, off) (n, err)
  requires recv != nil && 0 <= off
  mutates p
  modifies iofail
  ensures 0 <= n <= len(p)
  ensures n > 0 ==> off + n <= len(content(recv)) && p[:n] == content(recv)[off:off+n]
  ensures n < len(p) ==> err != nil
  ensures err == io.EOF ==> off + n >= len(content(recv))
  ensures iofail <==> old(iofail) || (err != nil && err != io.EOF)
  ensures !err.(*ApplyError)

// a writer of the caller; a limitWriter forwards to one
pred isLW(w: any) = w.(*limitWriter)
pred plainW(w: any) = w != nil && !isLW(w)
pred wtarget(w: any): any = if isLW(w) then as("*limitWriter", w).w else w
pred wOK(w: any) = w != nil && (isLW(w) ==> plainW(as("*limitWriter", w).w) && as("*limitWriter", w).limitErr != nil && !(as("*limitWriter", w).limitErr.(*ApplyError)) && as("*limitWriter", w).limitErr != io.EOF)

iface io.Writer.Write(p) (n, err)
  requires wOK(recv)
  modifies out(wtarget(recv)), iofail, as("*limitWriter", recv).limit
  ensures 0 <= n <= len(p)
  ensures out(wtarget(recv)) == old(out(wtarget(recv))) ++ p[:n]
  ensures n < len(p) ==> err != nil
  ensures !err.(*ApplyError)
  ensures recv.(*strings.Builder) ==> err == nil
  ensures !isLW(recv) ==> (iofail <==> old(iofail) || err != nil)
  ensures isLW(recv) ==> as("*limitWriter", recv).limit == old(as("*limitWriter", recv).limit) - n
  ensures isLW(recv) && len(p) > old(as("*limitWriter", recv).limit) ==> n == 0 && err != nil && iofail == old(iofail)
  ensures isLW(recv) && len(p) <= old(as("*limitWriter", recv).limit) ==> (iofail <==> old(iofail) || err != nil)

func (*limitWriter).Write() ()
  implements io.Writer.Write

extern io.WriteString(w, s) (n, err)
  requires plainW(w)
  modifies out(w), iofail
  ensures 0 <= n <= len(s)
  ensures out(w) == old(out(w)) ++ s[:n]
  ensures n < len(s) ==> err != nil
  ensures iofail <==> old(iofail) || err != nil
  ensures !err.(*ApplyError)

extern errors.Is(err, target) (r)
  ensures err == target ==> r
  ensures err == nil && target != nil ==> !r

// the line index agrees with the source
pred lrInv(r: *lineReaderAt) = r != nil && r.r != nil && len(r.index) <= len(content(r.r))
  | && (forall k {r.index[k]} {lineStart(content(r.r), k)} :: 0 <= k < len(r.index) ==> r.index[k] == lineStart(content(r.r), k+1) && lineStart(content(r.r), k) < len(content(r.r)))
  | && (r.eof ==> lineStart(content(r.r), len(r.index)) >= len(content(r.r)))

pred lsOK(r: any) = r != nil && (r.(*lineReaderAt) ==> lrInv(as("*lineReaderAt", r)))

iface LineReaderAt.ReadLinesAt(lines, offset) (n, err)
  requires lsOK(recv) && 0 <= offset && offset + len(lines) <= 9223372036854775807
  mutates lines
  allocates
  modifies iofail, as("*lineReaderAt", recv).index, as("*lineReaderAt", recv).eof
  ensures lsOK(recv)
  ensures 0 <= n <= len(lines)
  ensures forall k {lines[k]} {lineStart(lsrc(recv), offset+k)} :: 0 <= k < n ==> lines[k] == lineAt(lsrc(recv), offset+k)
  ensures hasLines(lsrc(recv), offset+n) || n == 0
  ensures n < len(lines) ==> err != nil
  ensures err == io.EOF ==> n < len(lines) && !hasLines(lsrc(recv), offset+n+1)
  ensures iofail <==> old(iofail) || (err != nil && err != io.EOF)
  ensures !err.(*ApplyError)

func (*lineReaderAt).ReadLinesAt() ()
  implements LineReaderAt.ReadLinesAt
  uses group:lines reveal:lsrcOf
  local n int
  loop 1
    invariant 0 <= n <= len(lines)
    invariant n == 0 || hasLines(content(recv.r), offset+n)
    invariant forall k {lines[k]} {lineStart(lsrc(recv), offset+k)} :: 0 <= k < n ==> lines[k] == lineAt(lsrc(recv), offset+k)

func (*lineReaderAt).indexTo(line) (err)
  requires lrInv(recv)
  requires !recv.eof || line <= len(recv.index)
  modifies recv.index, recv.eof, iofail
  uses group:lines
  ensures lrInv(recv)
  ensures !err.(*ApplyError)
  ensures iofail <==> old(iofail) || err != nil
  ensures err != io.EOF
  ensures err == nil ==> recv.eof || line <= len(recv.index)
  local offset int64
  loop 1
    invariant lrInv(recv)
    invariant !recv.eof || line <= len(recv.index)
    invariant iofail <==> old(iofail)
    invariant 0 <= offset <= len(content(recv.r))
    invariant lineEnd(content(recv.r), lineStart(content(recv.r), len(recv.index))) == lineEnd(content(recv.r), offset)
    invariant lineStart(content(recv.r), len(recv.index)) <= offset
    decreases len(content(recv.r)) - offset
  loop 2
    invariant lrInv(recv)
    invariant !recv.eof
    invariant offset == pre(offset) + $i
    invariant len($s) > 0 ==> pre(offset) + len($s) <= len(content(recv.r)) && $s == content(recv.r)[pre(offset):pre(offset)+len($s)]
    invariant lineEnd(content(recv.r), lineStart(content(recv.r), len(recv.index))) == lineEnd(content(recv.r), offset)
    invariant lineStart(content(recv.r), len(recv.index)) <= offset

func (*lineReaderAt).readBytes(line, n) (b, offset, err)
  requires lrInv(recv) && 0 <= line < len(recv.index) && 0 <= n && line + n <= 9223372036854775807
  modifies iofail
  allocates
  uses group:lines
  ensures !err.(*ApplyError)
  ensures iofail <==> old(iofail) || err != nil
  ensures err != io.EOF
  ensures err == nil ==> offset == lineStart(content(recv.r), line) && b == content(recv.r)[offset:lineStart(content(recv.r), min(line+n, len(recv.index)))]

func isLen(r, n) (ok, err)
  requires r != nil
  wraps
  modifies iofail
  ensures !err.(*ApplyError)
  ensures iofail <==> old(iofail) || err != nil
  ensures err == nil ==> (ok <==> len(content(r)) == n)

func copyFrom(dst, src, off) (written, err)
  requires plainW(dst) && src != nil && 0 <= off
  modifies out(dst), iofail
  ensures !err.(*ApplyError)
  ensures iofail <==> old(iofail) || err != nil
  ensures err == nil ==> out(dst) == old(out(dst)) ++ content(src)[min(off,len(content(src))):]
  local off int64
  local err error
  local written int64
  loop 1
    invariant 0 <= written <= off - old(off)
    invariant err == nil && iofail == old(iofail)
    invariant old(off) <= off && (off == old(off) || off <= len(content(src)))
    invariant out(dst) == old(out(dst)) ++ content(src)[min(old(off),len(content(src))):min(off,len(content(src)))]
    decreases max(len(content(src)) - off, 0)

func copyLinesFrom(dst, src, off) (written, err)
  requires plainW(dst) && lsOK(src) && 0 <= off <= 4611686018427387904
  modifies out(dst), iofail, as("*lineReaderAt", src).index, as("*lineReaderAt", src).eof
  allocates
  uses group:lines
  ensures lsOK(src)
  ensures !err.(*ApplyError)
  ensures iofail <==> old(iofail) || err != nil
  ensures err == nil ==> out(dst) == old(out(dst)) ++ lsrc(src)[lineStart(lsrc(src), off):]
  local off int64
  local err error
  loop 1
    invariant lsOK(src) && err == nil && iofail == old(iofail)
    invariant old(off) <= off && (off == old(off) || hasLines(lsrc(src), off))
    invariant out(dst) == old(out(dst)) ++ lsrc(src)[lineStart(lsrc(src), old(off)):lineStart(lsrc(src), off)]
    decreases len(lsrc(src)) - lineStart(lsrc(src), off)
  loop 2
    invariant err == nil && iofail == pre(iofail)
    invariant out(dst) == old(out(dst)) ++ lsrc(src)[lineStart(lsrc(src), old(off)):lineStart(lsrc(src), off + $i)]

