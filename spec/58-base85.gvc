// Git's base-85 and the data lines of binary patches.

pred b85Val(c: int): int = if 48 <= c <= 57 then c - 48 else if 65 <= c <= 90 then c - 55 else if 97 <= c <= 122 then c - 61 else if c == 33 then 62
  | else if 35 <= c <= 38 then c + 28 else if 40 <= c <= 43 then c + 27 else if c == 45 then 71 else if 59 <= c <= 64 then c + 13
  | else if 94 <= c <= 96 then c - 16 else if 123 <= c <= 126 then c - 42 else 0-1
// the value of the first n characters of group g of s
opaque pred b85Part(s: []byte, g: int, n: int): int = if n <= 0 then 0 else 85 * b85Part(s, g, n-1) + b85Val(s[5*g+n-1])
opaque pred b85Group(s: []byte, g: int): int = b85Part(s, g, 5)
opaque pred b85Chars(s: []byte, n: int): bool = forall i {s[i]} :: 0 <= i < n ==> b85Val(s[i]) >= 0
opaque pred b85Groups(s: []byte, n: int): bool = forall g {b85Group(s, g)} :: 0 <= g < n ==> b85Group(s, g) <= 4294967295
opaque pred b85OK(s: []byte): bool = len(s) % 5 == 0 && b85Chars(s, len(s)) && b85Groups(s, len(s)/5)
// the bytes of a group value, most significant first
pred byteOf(v: int, j: int): int = if j == 0 then (v / 16777216) % 256 else if j == 1 then (v / 65536) % 256 else if j == 2 then (v / 256) % 256 else v % 256
pred b85Byte(s: []byte, k: int): int = byteOf(b85Group(s, k/4), k%4)

lemma b85CharsStep(s: []byte, n: int, m: int)
  ensures n <= 0 ==> b85Chars(s, n)
  ensures 0 <= n ==> (b85Chars(s, n+1) <==> b85Chars(s, n) && b85Val(s[n]) >= 0)
  ensures 0 <= n < m && b85Chars(s, m) ==> b85Val(s[n]) >= 0
  uses reveal:b85Chars
  proof assert 0 <= s[n]

lemma b85GroupsStep(s: []byte, n: int, m: int)
  ensures n <= 0 ==> b85Groups(s, n)
  ensures 0 <= n ==> (b85Groups(s, n+1) <==> b85Groups(s, n) && b85Group(s, n) <= 4294967295)
  ensures 0 <= n < m && b85Groups(s, m) ==> b85Group(s, n) <= 4294967295
  uses reveal:b85Groups

lemma b85PartBounds(s: []byte, g: int, n: int)
  requires n <= 5 && b85Chars(s, 5*g+n) && 0 <= g
  ensures 0 <= b85Part(s, g, n) <= (if n <= 0 then 0 else if n == 1 then 84 else if n == 2 then 7224 else if n == 3 then 614124 else if n == 4 then 52200624 else 4437053124)
  decreases max(n, 0)
  uses reveal:b85Part
  proof case n <= 0
  proof use b85CharsStep(s, 5*g+n-1, 5*g+n)
  proof use b85PartBounds(s, g, n-1)
  proof assert n <= 0 || b85Val(s[5*g+n-1]) <= 84

lemma b85PartStep(s: []byte, g: int, n: int)
  ensures b85Part(s, g, 0) == 0
  ensures n >= 0 ==> b85Part(s, g, n+1) == 85 * b85Part(s, g, n) + b85Val(s[5*g+n])
  ensures b85Group(s, g) == b85Part(s, g, 5)
  uses reveal:b85Part reveal:b85Group

func base85Decode(dst, src) (err)
  requires len(src) <= 4611686018427387904
  mutates dst
  allocates
  uses reveal:b85OK
  ensures[content] err == nil <==> b85OK(src) && len(dst) <= len(src) / 5 * 4
  ensures[content] err == nil ==> forall k {dst[k]} :: 0 <= k < len(dst) ==> dst[k] == b85Byte(src, k)
  ensures err != io.EOF
  local n int
  local ndst int
  local v uint64
  entry[content] use b85PartStep(src, 0, 0)
  entry[content] use b85CharsStep(src, 0, 0)
  entry[content] use b85GroupsStep(src, 0, 0)
  loop 1
    invariant n == $i % 5 && ndst == min(4*($i/5), len(dst))
    invariant[content] b85Chars(src, $i) && b85Groups(src, $i/5)
    invariant[content] v == b85Part(src, $i/5, n)
    invariant[content] 0 <= v <= 52200624
    invariant[content] forall k {dst[k]} :: 0 <= k < ndst ==> dst[k] == b85Byte(src, k)
    body[content] use b85CharsStep(src, $i, len(src))
    body[content] use b85GroupsStep(src, $i/5, len(src)/5)
    body[content] use b85PartStep(src, $i/5, $i%5)
    body[content] use b85PartStep(src, $i/5+1, 0)
    body[content] use b85PartBounds(src, $i/5, $i%5+1)
    body let grp = $i/5
    end[content] assert $i % 5 != 0 || 4*(($i-1)/5)+0 >= len(dst) || dst[4*(($i-1)/5)+0] == byteOf(b85Group(src, ($i-1)/5), 0)
    end[content] assert $i % 5 != 0 || 4*(($i-1)/5)+1 >= len(dst) || dst[4*(($i-1)/5)+1] == byteOf(b85Group(src, ($i-1)/5), 1)
    end[content] assert $i % 5 != 0 || 4*(($i-1)/5)+2 >= len(dst) || dst[4*(($i-1)/5)+2] == byteOf(b85Group(src, ($i-1)/5), 2)
    end[content] assert $i % 5 != 0 || 4*(($i-1)/5)+3 >= len(dst) || dst[4*(($i-1)/5)+3] == byteOf(b85Group(src, ($i-1)/5), 3)
    end[content] assert b85Byte(src, 4*(($i-1)/5)+0) == byteOf(b85Group(src, ($i-1)/5), 0)
    end[content] assert b85Byte(src, 4*(($i-1)/5)+1) == byteOf(b85Group(src, ($i-1)/5), 1)
    end[content] assert b85Byte(src, 4*(($i-1)/5)+2) == byteOf(b85Group(src, ($i-1)/5), 2)
    end[content] assert b85Byte(src, 4*(($i-1)/5)+3) == byteOf(b85Group(src, ($i-1)/5), 3)
  loop 2
    unroll
    pre[content] set v = b85Group(src, grp)

// a data line: length byte, groups, newline
pred lineCount(l: []byte): int = if 65 <= l[0] <= 90 then l[0] - 64 else if 97 <= l[0] <= 122 then l[0] - 70 else 0-1
pred lineSeq(l: []byte): []byte = l[1:len(l)-1]
opaque pred dataLine(l: []byte): bool = len(l) >= 7 && (len(l)-2) % 5 == 0 && lineCount(l) >= 0
  | && (len(l)-2)/5*4 - 3 <= lineCount(l) <= (len(l)-2)/5*4 && b85OK(lineSeq(l))
// the first n bytes the groups of s stand for
pred b85Bytes(s: []byte, n: int): []byte = if n <= 0 then empty() else b85Bytes(s, n-1) ++ unit(b85Byte(s, n-1))
opaque pred lineData(l: []byte): []byte = b85Bytes(lineSeq(l), lineCount(l))
// the data of the m lines from line k on
opaque pred chunkData(c: []byte, k: int, m: int): []byte = if m <= 0 then empty() else chunkData(c, k, m-1) ++ lineData(lineAt(c, k+m-1))
// the number of data lines before the first line that is none
opaque pred dataRun(c: []byte, k: int, m: int): int = if dataLine(lineAt(c, k+m)) then dataRun(c, k, m+1) else m
opaque pred dataLen(c: []byte, k: int): int = dataRun(c, k, 0)

lemma b85BytesAre(b: []byte, s: []byte, n: int)
  requires n <= len(b) && (forall k {b[k]} :: 0 <= k < n ==> b[k] == b85Byte(s, k))
  ensures b85Bytes(s, n) == b[:max(n, 0)]
  decreases max(n, 0)
  proof case n <= 0
  proof use b85BytesAre(b, s, n-1)
  proof assert n <= 0 || b[n-1] == b85Byte(s, n-1)

lemma chunkDataStep(c: []byte, k: int, m: int)
  ensures m <= 0 ==> chunkData(c, k, m) == empty()
  ensures m >= 0 ==> chunkData(c, k, m+1) == chunkData(c, k, m) ++ lineData(lineAt(c, k+m))
  uses reveal:chunkData

lemma dataRunIs(c: []byte, k: int, i: int, m: int)
  requires i <= m && !dataLine(lineAt(c, k+m)) && (forall j {lineStart(c, j)} :: k+i <= j < k+m ==> dataLine(lineAt(c, j)))
  ensures dataRun(c, k, i) == m
  decreases m - i
  uses reveal:dataRun
  proof case i == m
  proof use dataRunIs(c, k, i+1, m)
  proof assert i == m || dataLine(lineAt(c, k+i))

lemma dataLenTo(c: []byte, k: int, e: int)
  requires k <= e && !dataLine(lineAt(c, e)) && (forall j {lineStart(c, j)} :: k <= j < e ==> dataLine(lineAt(c, j)))
  ensures dataLen(c, k) == e - k
  uses reveal:dataLen
  proof use dataRunIs(c, k, 0, e - k)

lemma dataLenIs(c: []byte, k: int, e: int)
  requires k <= e && lineAt(c, e) == "\n" && (forall j {lineStart(c, j)} :: k <= j < e ==> dataLine(lineAt(c, j)))
  ensures dataLen(c, k) == e - k
  uses reveal:dataLen reveal:dataLine
  proof use dataRunIs(c, k, 0, e - k)

func (*parser).ParseBinaryChunk(frag) (err)
  requires pInv(recv) && frag != nil
  modifies frag.RawData
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses group:lines reveal:dataLine reveal:lineData
  entry[content] use chunkDataStep(pin(recv), cur(recv), 0)
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err != io.EOF
  ensures err == nil ==> pInv(recv) && cur(recv) > old(cur(recv))
  ensures[content] err == nil ==> lineAt(pin(recv), cur(recv)-1) == "\n"
  ensures[content] err == nil ==> forall j {lineStart(pin(recv), j)} :: old(cur(recv)) <= j < cur(recv)-1 ==> dataLine(lineAt(pin(recv), j))
  ensures[content] err == nil ==> frag.RawData == chunkData(pin(recv), old(cur(recv)), cur(recv)-1-old(cur(recv)))
  ensures[io] err != nil && !iofail ==> pInv(recv)
  ensures[content] err != nil && !iofail ==> !dataLine(lineAt(pin(recv), cur(recv))) && lineAt(pin(recv), cur(recv)) != "\n"
  ensures[io] err != nil && !iofail ==> cur(recv) >= old(cur(recv))
  ensures[content] err != nil && !iofail ==> (forall j {lineStart(pin(recv), j)} :: old(cur(recv)) <= j < cur(recv) ==> dataLine(lineAt(pin(recv), j)))
  exit[content] use dataLenIs(pin(recv), old(cur(recv)), cur(recv)-1)
  exit[content] use dataLenTo(pin(recv), old(cur(recv)), cur(recv))
  ensures[content] err != nil && !iofail ==> lineAt(pin(recv), old(cur(recv))+dataLen(pin(recv), old(cur(recv)))) != "\n"
  ensures[content] err == nil ==> cur(recv)-1-old(cur(recv)) == dataLen(pin(recv), old(cur(recv)))
  ensures err == nil ==> cur(recv) >= 1
  local buf []byte
  after[content] base85Decode use b85BytesAre(buf, $arg1, lineCount(recv.lines[0]))
  after[content] base85Decode assert $res0 != nil || dataLine(recv.lines[0])
  after[content] base85Decode assert $res0 != nil || lineData(recv.lines[0]) == buf[:lineCount(recv.lines[0])]
  local data *bytes.Buffer
  loop 1
    invariant pInv(recv) && pin(recv) == old(pin(recv)) && cur(recv) >= old(cur(recv)) && frag.RawData == old(frag.RawData)
    invariant[io] iofail == old(iofail)
    invariant[content] forall j {lineStart(pin(recv), j)} :: old(cur(recv)) <= j < cur(recv) ==> dataLine(lineAt(pin(recv), j))
    invariant[content] data == chunkData(pin(recv), old(cur(recv)), cur(recv)-old(cur(recv)))
    decreases len(pin(recv)) - lineStart(pin(recv), cur(recv))
    body[content] use chunkDataStep(pin(recv), old(cur(recv)), cur(recv)-old(cur(recv)))

// marker and header lines
pred binMark(l: []byte): bool = l == "GIT binary patch\n"
pred noDataMark(l: []byte): bool = hasSuf(l, " differ\n") && (hasPre(l, "Binary files ") || hasPre(l, "Files "))
opaque pred isBinMark(l: []byte): bool = binMark(l) || noDataMark(l)
opaque pred hasBinData(l: []byte): bool = binMark(l)

func (*parser).ParseBinaryMarker() (isBinary, hasData, err)
  requires pInv(recv)
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses reveal:isBinMark reveal:hasBinData
  ensures[io] err == nil ==> iofail == old(iofail)
  ensures err == nil ==> pInv(recv)
  ensures[content] err == nil ==> (isBinary <==> isBinMark(old(recv.lines[0]))) && (hasData <==> hasBinData(old(recv.lines[0])))
  ensures err == nil && !isBinary ==> recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof)
  ensures err == nil && isBinary ==> recv.lineno == old(recv.lineno) + 1
  ensures err == nil && hasData ==> isBinary
  ensures[io] err != nil ==> iofail
  ensures err != nil ==> err != io.EOF
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail

pred binBare(l: []byte): []byte = trimSuf(l, "\n")
pred binSep(l: []byte): int = find(binBare(l), " ", 0)
opaque pred isBinHdr(l: []byte): bool = binSep(l) >= 0 && (binBare(l)[:binSep(l)] == "delta" || binBare(l)[:binSep(l)] == "literal")
opaque pred binMethod(l: []byte): int = if binBare(l)[:binSep(l)] == "delta" then 0 else 1
opaque pred binNum(l: []byte): []byte = binBare(l)[binSep(l)+1:]
opaque pred binHdrOK(l: []byte): bool = isBinHdr(l) && numOK(10, 64, binNum(l)) && numVal(10, binNum(l)) >= 0
pred binHdrOf(b: *BinaryFragment, l: []byte): bool = binHdrOK(l) && b.Method == binMethod(l) && b.Size == numVal(10, binNum(l)) && b.Size >= 0 && 0 <= b.Method <= 1

func (*parser).ParseBinaryFragmentHeader() (f, err)
  requires pInv(recv)
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  uses findBounds reveal:isBinHdr reveal:binMethod reveal:binNum reveal:binHdrOK
  ensures[io] err == nil ==> iofail == old(iofail)
  ensures err == nil ==> pInv(recv)
  ensures[content] err == nil ==> (f != nil <==> isBinHdr(old(recv.lines[0])))
  ensures err == nil && f == nil ==> recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof)
  ensures f != nil ==> fresh(f) && recv.lineno == old(recv.lineno) + 1 && len(f.RawData) == 0 && err == nil
  ensures[content] f != nil ==> binHdrOf(f, old(recv.lines[0]))
  ensures[io] err != nil && !iofail ==> pInv(recv)
  ensures[content] err != nil && !iofail ==> isBinHdr(old(recv.lines[0])) && !binHdrOK(old(recv.lines[0]))
  ensures err != io.EOF
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail

// b stands for the fragment whose header is line s
pred binEnd(c: []byte, s: int): int = s + 2 + dataLen(c, s+1)
pred parsedBin(b: *BinaryFragment, c: []byte, s: int): bool = binHdrOf(b, lineAt(c, s)) && b.RawData == chunkData(c, s+1, dataLen(c, s+1))
  | && lineAt(c, s+1+dataLen(c, s+1)) == "\n" && dataLen(c, s+1) >= 0
pred noBinary(f: *File): bool = !f.IsBinary && f.BinaryFragment == nil && f.ReverseBinaryFragment == nil

// line s starts a complete binary fragment
opaque pred binGood(c: []byte, s: int): bool = binHdrOK(lineAt(c, s)) && lineAt(c, s+1+dataLen(c, s+1)) == "\n"
// the line after the binary content that starts at line s
opaque pred binStop(c: []byte, s: int): int = if !isBinMark(lineAt(c, s)) then s else if !hasBinData(lineAt(c, s)) then s+1
  | else if isBinHdr(lineAt(c, binEnd(c, s+1))) then binEnd(c, binEnd(c, s+1)) else binEnd(c, s+1)
// the status of a file with binary content from line s on
pred binOf(f: *File, c: []byte, s: int): bool = (f.IsBinary <==> isBinMark(lineAt(c, s))) && (f.BinaryFragment != nil <==> hasBinData(lineAt(c, s)))
  | && (f.BinaryFragment != nil ==> parsedBin(f.BinaryFragment, c, s+1)) && (f.ReverseBinaryFragment != nil ==> parsedBin(f.ReverseBinaryFragment, c, binEnd(c, s+1)))
  | && (f.BinaryFragment != nil ==> (f.ReverseBinaryFragment != nil <==> isBinHdr(lineAt(c, binEnd(c, s+1)))))

func (*parser).ParseBinaryFragments(f) (n, err)
  requires pInv(recv) && f != nil && noBinary(f)
  modifies f.IsBinary, f.BinaryFragment, f.ReverseBinaryFragment
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  allocates
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err != io.EOF
  ensures 0 <= n <= 1 && (err == nil ==> (n == 1 <==> f.BinaryFragment != nil))
  ensures f.BinaryFragment != nil ==> f.IsBinary
  ensures f.ReverseBinaryFragment != nil ==> f.BinaryFragment != nil
  ensures[content] err == nil ==> (f.IsBinary <==> isBinMark(old(recv.lines[0])))
  ensures[content] err == nil ==> (f.BinaryFragment != nil <==> hasBinData(old(recv.lines[0])))
  ensures f.BinaryFragment != nil ==> fresh(f.BinaryFragment)
  ensures[content] f.BinaryFragment != nil ==> parsedBin(f.BinaryFragment, pin(recv), old(cur(recv))+1)
  ensures f.ReverseBinaryFragment != nil ==> fresh(f.ReverseBinaryFragment)
  ensures[content] f.ReverseBinaryFragment != nil ==> parsedBin(f.ReverseBinaryFragment, pin(recv), binEnd(pin(recv), old(cur(recv))+1))
  ensures err == nil ==> pInv(recv) && cur(recv) >= old(cur(recv))
  ensures[content] err == nil && f.BinaryFragment != nil && f.ReverseBinaryFragment == nil ==> cur(recv) == binEnd(pin(recv), old(cur(recv))+1) && !isBinHdr(recv.lines[0])
  ensures[content] err == nil && f.ReverseBinaryFragment != nil ==> cur(recv) == binEnd(pin(recv), binEnd(pin(recv), old(cur(recv))+1))
  ensures err == nil && f.IsBinary && f.BinaryFragment == nil ==> cur(recv) == old(cur(recv)) + 1
  uses reveal:binStop
  ensures[content] err == nil ==> cur(recv) == binStop(pin(recv), old(cur(recv))) && binOf(f, pin(recv), old(cur(recv)))
  uses reveal:binGood reveal:binHdrOK
  ensures[content] err != nil && !iofail ==> hasBinData(old(recv.lines[0])) && (!binGood(pin(recv), old(cur(recv))+1) || isBinHdr(lineAt(pin(recv), binEnd(pin(recv), old(cur(recv))+1))) && !binGood(pin(recv), binEnd(pin(recv), old(cur(recv))+1)))
  ensures err == nil && !f.IsBinary ==> recv.lineno == old(recv.lineno) && recv.lines == old(recv.lines) && recv.eof == old(recv.eof)

prop C08 base85Decode (*parser).ParseBinaryFragments
