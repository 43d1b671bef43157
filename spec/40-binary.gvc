// Binary fragments: inflating, deltas, the binary applier.

// what zlib makes of raw: the bytes it can inflate before it stops, and
// whether the stream is valid to its end (checksum included)
extern @pure inflated(raw: []byte): []byte
extern @pure inflateOK(raw: []byte): bool
axiom inflatedLen forall raw: []byte {inflated(raw)} :: len(inflated(raw)) <= 4611686018427387904

// a reader of the standard library: its data, whether it ends without error,
// the bytes already read and whether it was closed
extern @pure rdata0(r: any): []byte
extern @pure rok0(r: any): bool
ghostfield rpos int
ghostfield zclosed bool

extern bytes.NewReader(b) (r)
  allocates
  fresh r
  ensures r != nil && rdata0(r) == b && rpos(r) == 0

extern zlib.NewReader(r) (zr, err)
  requires r != nil
  allocates
  fresh zr
  ensures err != io.EOF && !err.(*ApplyError)
  ensures err != nil ==> !inflateOK(rdata0(r))
  ensures err == nil ==> zr != nil && rdata0(zr) == inflated(rdata0(r)) && (rok0(zr) <==> inflateOK(rdata0(r))) && rpos(zr) == 0 && !zclosed(zr)

extern (*io.LimitedReader).Read(p) (n, err)
  requires recv != nil && recv.R != nil && 0 <= rpos(recv.R)
  mutates p
  modifies recv.N, rpos(recv.R)
  ensures 0 <= n <= len(p)
  ensures recv.N == old(recv.N) - n && rpos(recv.R) == old(rpos(recv.R)) + n
  ensures n > 0 ==> n <= old(recv.N) && rpos(recv.R) <= len(rdata0(recv.R)) && p[:n] == rdata0(recv.R)[old(rpos(recv.R)):rpos(recv.R)]
  ensures old(recv.N) <= 0 ==> err == io.EOF
  ensures old(recv.N) > 0 && err == io.EOF ==> rok0(recv.R) && rpos(recv.R) == len(rdata0(recv.R))
  ensures old(recv.N) > 0 && rok0(recv.R) && !zclosed(recv.R) ==> err == nil || err == io.EOF
  ensures !err.(*ApplyError)

iface io.Closer.Close() (err)
  requires recv != nil
  modifies zclosed(recv)
  ensures rok0(recv) ==> err == nil
  ensures err != io.EOF && !err.(*ApplyError)

pred brPos(r: *binaryReader): int = if r.r == nil then 0 else rpos(r.r.R)
pred brClosed(r: *binaryReader): bool = r.r != nil && zclosed(r.c)
// the fragment's data are exactly the bytes of a valid stream of the declared size
pred dataOK(raw: []byte, size: int): bool = inflateOK(raw) && len(inflated(raw)) == size
pred brInv(r: *binaryReader) = r != nil && (r.r != nil ==> r.r.R != nil && r.c == r.r.R && rdata0(r.r.R) == inflated(r.raw)
  | && (rok0(r.r.R) <==> inflateOK(r.raw)) && 0 <= rpos(r.r.R) <= len(inflated(r.raw)) && r.r.N == wrap64(r.size + 1) - rpos(r.r.R) && (rpos(r.r.R) > 0 ==> r.r.N >= 0))

func (*binaryReader).Read(p) (n, err)
  requires brInv(recv)
  wraps
  mutates p
  allocates
  modifies recv.r, recv.c, recv.r.N, rpos(recv.r.R), zclosed(recv.c)
  ensures brInv(recv)
  ensures 0 <= n <= len(p) && brPos(recv) == old(brPos(recv)) + n
  ensures brPos(recv) <= max(recv.size + 1, 0)
  ensures n > 0 ==> p[:n] == inflated(recv.raw)[old(brPos(recv)):brPos(recv)]
  ensures err == io.EOF ==> dataOK(recv.raw, recv.size) && brPos(recv) == recv.size
  ensures dataOK(recv.raw, recv.size) && !old(brClosed(recv)) ==> err == nil || err == io.EOF
  ensures !err.(*ApplyError)

// reading everything from a new binaryReader (io.ReadAll and io.Copy call Read until it returns an error)
pred newBR(r: any) = r.(*binaryReader) && as("*binaryReader", r).r == nil
pred brRaw(r: any): []byte = as("*binaryReader", r).raw
pred brSize(r: any): int = as("*binaryReader", r).size

extern io.ReadAll(r) (b, err)
  requires newBR(r)
  allocates
  modifies as("*binaryReader", r).r, as("*binaryReader", r).c
  fresh b
  ensures len(b) <= max(brSize(r) + 1, 0) && len(b) <= len(inflated(brRaw(r))) && b == inflated(brRaw(r))[:len(b)]
  ensures err == nil <==> dataOK(brRaw(r), brSize(r))
  ensures err == nil ==> len(b) == brSize(r)
  ensures !err.(*ApplyError)

extern io.Copy(dst, src) (n, err)
  requires plainW(dst) && newBR(src)
  allocates
  modifies as("*binaryReader", src).r, as("*binaryReader", src).c, out(dst), iofail
  ensures 0 <= n <= max(brSize(src) + 1, 0) && n <= len(inflated(brRaw(src)))
  ensures out(dst) == old(out(dst)) ++ inflated(brRaw(src))[:n]
  ensures err == nil ==> dataOK(brRaw(src), brSize(src)) && n == brSize(src)
  ensures !iofail && dataOK(brRaw(src), brSize(src)) ==> err == nil
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  ensures !err.(*ApplyError)

// ---- deltas

// the variable-length integer at the start of d
pred vC1(d: []byte): bool = 1 <= len(d) && d[0] > 127
pred vC2(d: []byte): bool = vC1(d) && 2 <= len(d) && d[1] > 127
pred vC3(d: []byte): bool = vC2(d) && 3 <= len(d) && d[2] > 127
pred vC4(d: []byte): bool = vC3(d) && 4 <= len(d) && d[3] > 127
pred vC5(d: []byte): bool = vC4(d) && 5 <= len(d) && d[4] > 127
pred vC6(d: []byte): bool = vC5(d) && 6 <= len(d) && d[5] > 127
pred vC7(d: []byte): bool = vC6(d) && 7 <= len(d) && d[6] > 127
pred vC8(d: []byte): bool = vC7(d) && 8 <= len(d) && d[7] > 127
pred vC9(d: []byte): bool = vC8(d) && 9 <= len(d) && d[8] > 127
pred vSize(d: []byte): int = wrap64((if 0 < len(d) then d[0] % 128 else 0)
  | + (if vC1(d) && 1 < len(d) then 128 * (d[1] % 128) else 0)
  | + (if vC2(d) && 2 < len(d) then 16384 * (d[2] % 128) else 0)
  | + (if vC3(d) && 3 < len(d) then 2097152 * (d[3] % 128) else 0)
  | + (if vC4(d) && 4 < len(d) then 268435456 * (d[4] % 128) else 0)
  | + (if vC5(d) && 5 < len(d) then 34359738368 * (d[5] % 128) else 0)
  | + (if vC6(d) && 6 < len(d) then 4398046511104 * (d[6] % 128) else 0)
  | + (if vC7(d) && 7 < len(d) then 562949953421312 * (d[7] % 128) else 0)
  | + (if vC8(d) && 8 < len(d) then 72057594037927936 * (d[8] % 128) else 0)
  | + (if vC9(d) && 9 < len(d) then 9223372036854775808 * (d[9] % 128) else 0))
// the bytes after it
pred vEnd(d: []byte, i: int): int = if i >= len(d) then len(d) else if d[i] <= 127 then i+1 else vEnd(d, i+1)
pred vRest(d: []byte): []byte = d[vEnd(d, 0):]

lemma vEndBounds(d: []byte, i: int)
  requires 0 <= i <= len(d)
  ensures i <= vEnd(d, i) <= len(d)
  ensures i < len(d) ==> i < vEnd(d, i)
  trigger vEnd(d, i)
  decreases len(d) - i
  proof use vEndBounds(d, i+1)

func readBinaryDeltaSize(d) (size, rest)
  wraps
  ensures size == vSize(d)
  ensures rest == vRest(d)
  uses vEndBounds
  local size int64
  local shift uint
  loop 1
    peel 10
    invariant shift == 7*$i
    invariant $i >= 10 && size == vSize(d)
    invariant vEnd(d, 0) == vEnd(d, $i)
    body assert vEnd(d, $i) == (if d[$i] <= 127 then $i+1 else vEnd(d, $i+1))

// instructions: op is the opcode, r what follows it
pred bit(op: int, m: int): int = (op / m) % 2
pred nb1(op: int): int = bit(op,1)
pred nb2(op: int): int = nb1(op) + bit(op,2)
pred nb3(op: int): int = nb2(op) + bit(op,4)
pred nb4(op: int): int = nb3(op) + bit(op,8)
pred nb5(op: int): int = nb4(op) + bit(op,16)
pred nb6(op: int): int = nb5(op) + bit(op,32)
pred nargs(op: int): int = nb6(op) + bit(op,64)
pred cOff(op: int, r: []byte): int = (if bit(op,1) == 1 then r[0] else 0) + (if bit(op,2) == 1 then 256*r[nb1(op)] else 0)
  | + (if bit(op,4) == 1 then 65536*r[nb2(op)] else 0) + (if bit(op,8) == 1 then 16777216*r[nb3(op)] else 0)
pred cSize0(op: int, r: []byte): int = (if bit(op,16) == 1 then r[nb4(op)] else 0) + (if bit(op,32) == 1 then 256*r[nb5(op)] else 0)
  | + (if bit(op,64) == 1 then 65536*r[nb6(op)] else 0)
pred cSize(op: int, r: []byte): int = if cSize0(op, r) == 0 then 65536 else cSize0(op, r)

opaque pred copyOK(c: []byte, op: int, r: []byte): bool = nargs(op) <= len(r) && cOff(op, r) + cSize(op, r) <= len(c)
opaque pred copyData(c: []byte, op: int, r: []byte): []byte = c[cOff(op, r):cOff(op, r)+cSize(op, r)]
opaque pred copyArgs(op: int): int = nargs(op)

lemma copyFacts(c: []byte, op: int, r: []byte)
  requires 128 <= op <= 255
  ensures 0 <= copyArgs(op) <= 7
  ensures copyOK(c, op, r) ==> copyArgs(op) <= len(r) && 1 <= len(copyData(c, op, r)) <= 16777215
  trigger copyOK(c, op, r)
  trigger copyData(c, op, r)
  uses reveal:copyOK reveal:copyData reveal:copyArgs

pred instrOK(c: []byte, d: []byte): bool = d[0] != 0 && (if d[0] >= 128 then copyOK(c, d[0], d[1:]) else d[0] < len(d))
pred instrLen(d: []byte): int = if d[0] >= 128 then 1 + copyArgs(d[0]) else 1 + d[0]
pred instrData(c: []byte, d: []byte): []byte = if d[0] >= 128 then copyData(c, d[0], d[1:]) else d[1:1+d[0]]
// every instruction of d is well formed
pred dok(c: []byte, d: []byte): bool = len(d) == 0 || instrOK(c, d) && dok(c, d[instrLen(d):])
// the data of the instructions of d, up to the first malformed one
pred dout(c: []byte, d: []byte): []byte = if len(d) == 0 || !instrOK(c, d) then empty() else instrData(c, d) ++ dout(c, d[instrLen(d):])

pred isLWok(w: any) = isLW(w) && wOK(w)
pred lwLimit(w: any): int = as("*limitWriter", w).limit

func applyBinaryDeltaAdd(w, op, delta) (n, rest, err)
  requires isLWok(w) && 0 <= op <= 127
  modifies out(wtarget(w)), iofail, as("*limitWriter", w).limit
  allocates
  ensures 0 <= old(lwLimit(w)) - lwLimit(w) == len(out(wtarget(w))) - old(len(out(wtarget(w))))
  ensures lwLimit(w) >= min(old(lwLimit(w)), 0)
  ensures err == nil ==> op <= len(delta) && rest == delta[op:] && out(wtarget(w)) == old(out(wtarget(w))) ++ delta[:op]
  ensures !iofail ==> (err == nil <==> op <= len(delta) && op <= old(lwLimit(w)))
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  ensures !err.(*ApplyError)

func applyBinaryDeltaCopy(w, op, delta, src) (n, rest, err)
  requires isLWok(w) && 128 <= op <= 255 && src != nil
  modifies out(wtarget(w)), iofail, as("*limitWriter", w).limit
  allocates
  uses copyFacts reveal:copyOK reveal:copyData reveal:copyArgs
  merge
  ensures 0 <= old(lwLimit(w)) - lwLimit(w) == len(out(wtarget(w))) - old(len(out(wtarget(w))))
  ensures lwLimit(w) >= min(old(lwLimit(w)), 0)
  ensures err == nil ==> copyOK(content(src), op, delta) && rest == delta[copyArgs(op):] && out(wtarget(w)) == old(out(wtarget(w))) ++ copyData(content(src), op, delta)
  ensures !iofail ==> (err == nil <==> copyOK(content(src), op, delta) && len(copyData(content(src), op, delta)) <= old(lwLimit(w)))
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  ensures !err.(*ApplyError)

func checkBinarySrcSize(r, size) (err)
  requires r != nil
  modifies iofail
  allocates
  ensures !err.(*ApplyError)
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  ensures err == nil ==> len(content(r)) == size
  ensures !iofail ==> (err == nil <==> len(content(r)) == size)
  ensures !iofail && err != nil ==> err.(*Conflict)

// the declared result size and the instructions of a delta
pred dSize(frag: []byte): int = vSize(vRest(frag))
pred dInstr(frag: []byte): []byte = vRest(vRest(frag))
pred deltaOK(c: []byte, frag: []byte, limit: int) = len(c) == vSize(frag) && (limit < 0 || dSize(frag) <= limit)
  | && dok(c, dInstr(frag)) && len(dout(c, dInstr(frag))) == dSize(frag)

func applyBinaryDeltaFragment(dst, src, frag, limit) (err)
  requires plainW(dst) && src != nil
  modifies out(dst), iofail
  allocates
  uses copyFacts vEndBounds
  ensures len(out(dst)) - old(len(out(dst))) <= max(dSize(frag), 0)
  ensures limit >= 0 && dSize(frag) > limit ==> err != nil && out(dst) == old(out(dst))
  ensures err == nil ==> deltaOK(content(src), frag, limit) && out(dst) == old(out(dst)) ++ dout(content(src), dInstr(frag))
  ensures !iofail ==> (err == nil <==> deltaOK(content(src), frag, limit))
  ensures iofail && !old(iofail) ==> err != nil
  ensures old(iofail) ==> iofail
  ensures !err.(*ApplyError)
  local dstLimit *limitWriter
  local delta []byte
  local dstSize int64
  loop 1
    invariant iofail == old(iofail)
    invariant isLWok(dstLimit) && dstLimit.w == dst
    invariant dstLimit.limit == dSize(frag) - (len(out(dst)) - len(old(out(dst))))
    invariant dstLimit.limit >= min(dSize(frag), 0)
    invariant dok(content(src), dInstr(frag)) <==> dok(content(src), delta)
    invariant old(out(dst)) ++ dout(content(src), dInstr(frag)) == out(dst) ++ dout(content(src), delta)
    decreases len(delta)

