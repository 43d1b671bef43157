// Formatting binary fragments, and parsing what was formatted.

// the character of a base-85 digit
opaque pred b85Char(x: int): int = if x < 10 then x + 48 else if x < 36 then x + 55 else if x < 62 then x + 61 else if x == 62 then 33
  | else if x <= 66 then x - 28 else if x <= 70 then x - 27 else if x == 71 then 45 else if x <= 77 then x - 13
  | else if x <= 80 then x + 16 else x + 42
lemma b85CharVal(x: int)
  requires 0 <= x < 85
  ensures b85Val(b85Char(x)) == x && 33 <= b85Char(x) <= 126
  uses reveal:b85Char
// four bytes of s as a number, zero past the end
pred srcByte(s: []byte, k: int): int = if k < len(s) then s[k] else 0
opaque pred srcWord(s: []byte, g: int): int = 16777216*srcByte(s, 4*g) + 65536*srcByte(s, 4*g+1) + 256*srcByte(s, 4*g+2) + srcByte(s, 4*g+3)
pred wordText(v: int): []byte = unit(b85Char((v/52200625)%85)) ++ unit(b85Char((v/614125)%85)) ++ unit(b85Char((v/7225)%85)) ++ unit(b85Char((v/85)%85)) ++ unit(b85Char(v%85))
opaque pred encText(s: []byte, g: int): []byte = if g <= 0 then empty() else encText(s, g-1) ++ wordText(srcWord(s, g-1))

lemma encStep(s: []byte, g: int)
  ensures g <= 0 ==> encText(s, g) == empty()
  ensures g >= 0 ==> encText(s, g+1) == encText(s, g) ++ wordText(srcWord(s, g))
  uses reveal:encText

lemma srcWordDef(s: []byte, g: int)
  ensures srcWord(s, g) == 16777216*srcByte(s, 4*g) + 65536*srcByte(s, 4*g+1) + 256*srcByte(s, 4*g+2) + srcByte(s, 4*g+3)
  uses reveal:srcWord

func base85Len(n) (r)
  inline

func base85Encode(dst, src) ()
  requires len(dst) >= (len(src) + 3) / 4 * 5
  mutates dst
  ensures dst[:(len(src)+3)/4*5] == encText(src, (len(src)+3)/4)
  local di int
  local si int
  uses reveal:b85Char
  entry use encStep(src, 0)
  loop 1
    invariant si % 4 == 0 && 0 <= si <= len(src) && di == si/4*5 && di <= len(dst)
    invariant dst[:di] == encText(src, si/4)
    body use encStep(src, si/4)
    body let w = srcWord(src, si/4)
    body use srcWordDef(src, si/4)
    body let d0 = dst
    body assert w == 16777216*src[si] + 65536*src[si+1] + 256*src[si+2] + src[si+3]
    body let v0 = 16777216*src[si] + 65536*src[si+1] + 256*src[si+2] + src[si+3]
    end assert dst[di-5] == b85Char((w/52200625)%85)
    end assert dst[di-4] == b85Char((w/614125)%85)
    end assert dst[di-3] == b85Char((w/7225)%85)
    end assert dst[di-2] == b85Char((w/85)%85)
    end assert dst[di-1] == b85Char(v0%85)
    end assert w%85 == v0%85
    end assert dst[di-1] == b85Char(w%85)
    end assert dst[:di-5] == d0[:di-5]
  exit let w = srcWord(src, len(src)/4)
  exit use srcWordDef(src, len(src)/4)
  exit assert di == len(src)/4*5 && si == len(src)/4*4
  exit let v1 = if si+2 < len(src) then 16777216*src[si] + 65536*src[si+1] + 256*src[si+2] else if si+1 < len(src) then 16777216*src[si] + 65536*src[si+1] else if si < len(src) then 16777216*src[si] else 0
  exit assert w == v1
  exit assert si == len(src) || dst[di+0] == b85Char((v1/52200625)%85)
  exit assert si == len(src) || dst[di+0] == b85Char((w/52200625)%85)
  exit assert si == len(src) || dst[di+1] == b85Char((v1/614125)%85)
  exit assert si == len(src) || dst[di+1] == b85Char((w/614125)%85)
  exit assert si == len(src) || dst[di+2] == b85Char((v1/7225)%85)
  exit assert si == len(src) || dst[di+2] == b85Char((w/7225)%85)
  exit assert si == len(src) || dst[di+3] == b85Char((v1/85)%85)
  exit assert si == len(src) || dst[di+3] == b85Char((w/85)%85)
  exit assert si == len(src) || dst[di+4] == b85Char(v1%85)
  exit assert w%85 == v1%85
  exit assert si == len(src) || dst[di+4] == b85Char(w%85)
  exit assert dst[:di] == encText(src, len(src)/4)
  exit use encStep(src, len(src)/4)


extern strconv.AppendInt(dst, i, base) (r)
  requires base == 10
  allocates
  fresh r
  ensures r == dst ++ itoa(i)

pred lenChar(n: int): int = if n <= 26 then 64 + n else 70 + n
pred dataText(s: []byte): []byte = unit(lenChar(len(s))) ++ encText(s, (len(s)+3)/4) ++ "\n"
lemma dataTextAt(o: []byte, p: []byte, n: int, b: []byte, s: []byte)
  requires n == lenChar(len(s)) && b == encText(s, (len(s)+3)/4) && o == p ++ unit(n) ++ b ++ "\n\n"
  ensures o == p ++ dataText(s) ++ "\n"
opaque pred fullText(d: []byte, m: int): []byte = if m <= 0 then empty() else fullText(d, m-1) ++ dataText(d[52*(m-1):52*m])
opaque pred dataTexts(d: []byte): []byte = fullText(d, len(d)/52) ++ (if len(d)%52 > 0 then dataText(d[len(d)/52*52:]) else empty())
pred binHdrText(f: *BinaryFragment): []byte = (if f.Method == 0 then "delta " else if f.Method == 1 then "literal " else empty()) ++ itoa(f.Size) ++ "\n"
pred binText(f: *BinaryFragment): []byte = binHdrText(f) ++ dataTexts(f.RawData) ++ "\n"

lemma fullStep(d: []byte, m: int)
  ensures m <= 0 ==> fullText(d, m) == empty()
  ensures m >= 0 ==> fullText(d, m+1) == fullText(d, m) ++ dataText(d[52*m:52*m+52])
  uses reveal:fullText

lemma catGrow(h: []byte, a: []byte, t: []byte, o: []byte, n: []byte)
  requires o == h ++ a && n == a ++ t
  ensures o ++ t == h ++ n
pred dataCnt(d: []byte): int = (len(d) + 51) / 52
lemma dataTextsIs(d: []byte)
  ensures len(d)%52 == 0 ==> dataTexts(d) ++ "\n" == fullText(d, len(d)/52) ++ "\n" && dataCnt(d) == len(d)/52
  ensures len(d)%52 != 0 ==> dataTexts(d) ++ "\n" == fullText(d, len(d)/52) ++ dataText(d[52*(len(d)/52):]) ++ "\n" && dataCnt(d) == len(d)/52+1
  uses reveal:dataTexts

func (*formatter).FormatBinaryFragment(f) ()
  requires fmOK(recv) && f != nil
  modifies out(recv.w)
  allocates
  exit let d = f.RawData
  exit use dataTextsIs(d)
  exit assert n == len(d)/52*52 && (n < len(d) <==> len(d)%52 != 0)
  exit let rest = d[52*(len(d)/52):]
  exit assert d[n:] == rest
  exit assert sizeChar == lenChar(len(rest))
  exit assert buf == encText(rest, (len(rest)+3)/4) && out(recv.w) == p1 ++ unit(sizeChar) ++ buf ++ "\n\n"
  exit use dataTextAt(out(recv.w), p1, sizeChar, buf, rest)
  exit assert n == len(d) || out(recv.w) == p1 ++ dataText(rest) ++ "\n"
  exit assert n < len(d) || out(recv.w) == p1 ++ "\n"
  exit let h = old(out(recv.w)) ++ binHdrText(f)
  exit assert p1 == h ++ fullText(d, len(d)/52)
  exit assert n == len(d) || dataTexts(d) ++ "\n" == fullText(d, len(d)/52) ++ dataText(rest) ++ "\n"
  exit use catGrow(h, fullText(d, len(d)/52), "\n", p1, dataTexts(d) ++ "\n")
  exit use catGrow(h, fullText(d, len(d)/52), dataText(rest) ++ "\n", p1, dataTexts(d) ++ "\n")
  exit assert n == len(d) || out(recv.w) == h ++ dataTexts(d) ++ "\n"
  exit assert n < len(d) || out(recv.w) == h ++ dataTexts(d) ++ "\n"
  ensures out(recv.w) == old(out(recv.w)) ++ binText(f)
  local i int
  local buf []byte
  local sizeChar byte
  local n int
  loop 1
    pre let h0 = out(recv.w)
    pre assert h0 == old(out(recv.w)) ++ binHdrText(f)
    pre use fullStep(f.RawData, 0)
    invariant i % 52 == 0 && 0 <= i <= n && len(buf) == 65
    invariant out(recv.w) == h0 ++ fullText(f.RawData, i/52)
    body let o1 = out(recv.w)
    body let s1 = f.RawData[i:i+52]
    body use fullStep(f.RawData, i/52)
    post assert out(recv.w) == old(out(recv.w)) ++ binHdrText(f) ++ fullText(f.RawData, len(f.RawData)/52)
    post assert n == len(f.RawData)/52*52
    post let p1 = out(recv.w)
    end assert buf == encText(s1, 13)
    end assert out(recv.w) == o1 ++ dataText(s1)


// ---- what was encoded is decoded again

lemma srcWordBounds(s: []byte, g: int)
  requires g >= 0
  ensures 0 <= srcWord(s, g) <= 4294967295
  ensures byteOf(srcWord(s, g), 0) == srcByte(s, 4*g) && byteOf(srcWord(s, g), 1) == srcByte(s, 4*g+1) && byteOf(srcWord(s, g), 2) == srcByte(s, 4*g+2) && byteOf(srcWord(s, g), 3) == srcByte(s, 4*g+3)
  proof use srcWordDef(s, g)
  proof assert 0 <= srcByte(s, 4*g) <= 255 && 0 <= srcByte(s, 4*g+1) <= 255 && 0 <= srcByte(s, 4*g+2) <= 255 && 0 <= srcByte(s, 4*g+3) <= 255
lemma digits(v: int)
  requires 0 <= v <= 4294967295
  ensures v == 85*(85*(85*(85*((v/52200625)%85) + (v/614125)%85) + (v/7225)%85) + (v/85)%85) + v%85
  proof assert v/7225 == (v/85)/85
  proof assert v/614125 == (v/7225)/85
  proof assert v/52200625 == (v/614125)/85
lemma encLen(s: []byte, g: int)
  ensures len(encText(s, g)) == 5*max(g, 0)
  decreases max(g, 0)
  trigger encText(s, g)
  proof use encStep(s, g-1)
  proof case g <= 0
  proof use encLen(s, g-1)
pred groupIs(t: []byte, g: int, v: int): bool = t[5*g] == b85Char((v/52200625)%85) && t[5*g+1] == b85Char((v/614125)%85) && t[5*g+2] == b85Char((v/7225)%85) && t[5*g+3] == b85Char((v/85)%85) && t[5*g+4] == b85Char(v%85)
lemma catGroup(a: []byte, w: []byte, n: int, g: int)
  requires 0 <= g <= n && len(a) == 5*n && len(w) == 5
  ensures g < n ==> (a ++ w)[5*g] == a[5*g] && (a ++ w)[5*g+1] == a[5*g+1] && (a ++ w)[5*g+2] == a[5*g+2] && (a ++ w)[5*g+3] == a[5*g+3] && (a ++ w)[5*g+4] == a[5*g+4]
  ensures g == n ==> (a ++ w)[5*g] == w[0] && (a ++ w)[5*g+1] == w[1] && (a ++ w)[5*g+2] == w[2] && (a ++ w)[5*g+3] == w[3] && (a ++ w)[5*g+4] == w[4]
lemma fiveAt(a: int, b: int, c: int, d: int, e: int)
  requires 0 <= a <= 255 && 0 <= b <= 255 && 0 <= c <= 255 && 0 <= d <= 255 && 0 <= e <= 255
  ensures (unit(a) ++ unit(b) ++ unit(c) ++ unit(d) ++ unit(e))[0] == a && (unit(a) ++ unit(b) ++ unit(c) ++ unit(d) ++ unit(e))[1] == b
  ensures (unit(a) ++ unit(b) ++ unit(c) ++ unit(d) ++ unit(e))[2] == c && (unit(a) ++ unit(b) ++ unit(c) ++ unit(d) ++ unit(e))[3] == d
  ensures (unit(a) ++ unit(b) ++ unit(c) ++ unit(d) ++ unit(e))[4] == e && len(unit(a) ++ unit(b) ++ unit(c) ++ unit(d) ++ unit(e)) == 5
lemma wordAt(v: int)
  requires 0 <= v <= 4294967295
  ensures groupIs(wordText(v), 0, v) && len(wordText(v)) == 5
  proof use b85CharVal((v/52200625)%85)
  proof use b85CharVal((v/614125)%85)
  proof use b85CharVal((v/7225)%85)
  proof use b85CharVal((v/85)%85)
  proof use b85CharVal(v%85)
  proof use fiveAt(b85Char((v/52200625)%85), b85Char((v/614125)%85), b85Char((v/7225)%85), b85Char((v/85)%85), b85Char(v%85))
lemma encAt(s: []byte, n: int, g: int)
  requires 0 <= g < n
  ensures groupIs(encText(s, n), g, srcWord(s, g))
  decreases n
  proof use encStep(s, n-1)
  proof use encLen(s, n-1)
  proof let a = encText(s, n-1)
  proof let w = wordText(srcWord(s, n-1))
  proof assert encText(s, n) == a ++ w && len(a) == 5*(n-1)
  proof use srcWordBounds(s, n-1)
  proof use wordAt(srcWord(s, n-1))
  proof use encAt(s, n-1, g)
  proof use catGroup(a, w, n-1, g)
  proof case g == n-1
lemma groupVal(t: []byte, g: int, v: int)
  requires 0 <= v <= 4294967295 && 0 <= g && 5*g+5 <= len(t) && groupIs(t, g, v)
  ensures b85Group(t, g) == v
  ensures b85Val(t[5*g]) >= 0 && b85Val(t[5*g+1]) >= 0 && b85Val(t[5*g+2]) >= 0 && b85Val(t[5*g+3]) >= 0 && b85Val(t[5*g+4]) >= 0
  ensures 33 <= t[5*g] && 33 <= t[5*g+1] && 33 <= t[5*g+2] && 33 <= t[5*g+3] && 33 <= t[5*g+4]
  proof use b85CharVal((v/52200625)%85)
  proof use b85CharVal((v/614125)%85)
  proof use b85CharVal((v/7225)%85)
  proof use b85CharVal((v/85)%85)
  proof use b85CharVal(v%85)
  proof use b85PartStep(t, g, 0)
  proof use b85PartStep(t, g, 1)
  proof use b85PartStep(t, g, 2)
  proof use b85PartStep(t, g, 3)
  proof use b85PartStep(t, g, 4)
  proof use digits(v)
  proof assert b85Part(t, g, 1) == (v/52200625)%85
  proof assert b85Part(t, g, 2) == 85*((v/52200625)%85) + (v/614125)%85
  proof assert b85Part(t, g, 3) == 85*(85*((v/52200625)%85) + (v/614125)%85) + (v/7225)%85
  proof assert b85Part(t, g, 4) == 85*(85*(85*((v/52200625)%85) + (v/614125)%85) + (v/7225)%85) + (v/85)%85
lemma encGroup(s: []byte, n: int, g: int)
  requires 0 <= g < n
  ensures b85Group(encText(s, n), g) == srcWord(s, g)
  trigger b85Group(encText(s, n), g)
  proof use encAt(s, n, g)
  proof use encLen(s, n)
  proof use srcWordBounds(s, g)
  proof use groupVal(encText(s, n), g, srcWord(s, g))
lemma encChar(s: []byte, n: int, j: int)
  requires 0 <= j < 5*n
  ensures b85Val(encText(s, n)[j]) >= 0 && encText(s, n)[j] >= 33
  trigger encText(s, n)[j]
  proof use encAt(s, n, j/5)
  proof use encLen(s, n)
  proof use srcWordBounds(s, j/5)
  proof use groupVal(encText(s, n), j/5, srcWord(s, j/5))
  proof case j == 5*(j/5)
  proof case j == 5*(j/5)+1
  proof case j == 5*(j/5)+2
  proof case j == 5*(j/5)+3
lemma encDecodes(s: []byte, n: int, k: int)
  requires 0 <= k < 4*n
  ensures b85Byte(encText(s, n), k) == srcByte(s, k)
  proof use encGroup(s, n, k/4)
  proof use srcWordBounds(s, k/4)
lemma encWord(s: []byte, g: int)
  requires g >= 0
  ensures srcWord(s, g) <= 4294967295
  trigger srcWord(s, g)
  proof use srcWordBounds(s, g)
lemma encOK(s: []byte, n: int)
  requires 0 <= n
  ensures b85OK(encText(s, n)) && (forall j {encText(s, n)[j]} :: 0 <= j < 5*n ==> encText(s, n)[j] >= 33)
  uses encGroup encChar encWord reveal:b85OK reveal:b85Chars reveal:b85Groups
  proof use encLen(s, n)
  proof assert forall g {b85Group(encText(s, n), g)} :: 0 <= g < n ==> b85Group(encText(s, n), g) == srcWord(s, g) && srcWord(s, g) <= 4294967295
  proof assert forall j {encText(s, n)[j]} :: 0 <= j < 5*n ==> b85Val(encText(s, n)[j]) >= 0 && encText(s, n)[j] >= 33
lemma encBytes(s: []byte, n: int)
  requires 0 <= n <= len(s)
  ensures b85Bytes(encText(s, (len(s)+3)/4), n) == s[:n]
  decreases n
  proof case n == 0
  proof use encBytes(s, n-1)
  proof use encDecodes(s, (len(s)+3)/4, n-1)
  proof assert n == 0 || b85Byte(encText(s, (len(s)+3)/4), n-1) == s[n-1]
lemma dataTextLine(s: []byte)
  requires 1 <= len(s) <= 52
  ensures oneLineText(dataText(s)) && dataLine(dataText(s)) && lineData(dataText(s)) == s && len(dataText(s)) == 2 + (len(s)+3)/4*5
  uses reveal:dataLine reveal:lineData
  proof let t = encText(s, (len(s)+3)/4)
  proof let l = dataText(s)
  proof use encLen(s, (len(s)+3)/4)
  proof use encOK(s, (len(s)+3)/4)
  proof use encBytes(s, len(s))
  proof assert s[:len(s)] == s
  proof assert l[0] == lenChar(len(s)) && l[len(l)-1] == '\n' && len(l) == 2 + len(t)
  proof assert lineCount(l) == len(s)
  proof assert lineSeq(l) == t
  proof assert forall j {l[j]} :: 1 <= j < len(l)-1 ==> l[j] == t[j-1]

// ---- the lines of a formatted fragment

lemma fullLines(c: []byte, k: int, d: []byte, m: int)
  requires 0 <= k && 0 <= m && 52*m <= len(d) && textAt(c, k, fullText(d, m))
  ensures lineStart(c, k+m) == lineStart(c, k) + len(fullText(d, m)) && chunkData(c, k, m) == d[:52*m]
  ensures forall j {lineStart(c, j)} :: k <= j < k+m ==> dataLine(lineAt(c, j))
  decreases m
  proof use fullStep(d, m-1)
  proof use chunkDataStep(c, k, m-1)
  proof case m == 0
  proof let x = d[52*(m-1):52*m]
  proof assert m == 0 || len(x) == 52
  proof use textSplit(c, k, fullText(d, m-1), dataText(x))
  proof use fullLines(c, k, d, m-1)
  proof assert m == 0 || textAt(c, k+m-1, dataText(x))
  proof use dataTextLine(x)
  proof use oneLine(c, k+m-1, dataText(x))
  proof assert m == 0 || lineAt(c, k+m-1) == dataText(x)
  proof assert m == 0 || d[:52*(m-1)] ++ x == d[:52*m]
lemma blankLine()
  ensures oneLineText("\n")
lemma fullData(c: []byte, k: int, d: []byte, m: int)
  requires 0 <= k && len(d) == 52*m && textAt(c, k, fullText(d, m) ++ "\n")
  ensures lineAt(c, k+m) == "\n" && dataLen(c, k) == m && chunkData(c, k, m) == d
  ensures lineStart(c, k+m+1) == lineStart(c, k) + len(fullText(d, m)) + 1
  proof use textSplit(c, k, fullText(d, m), "\n")
  proof use fullLines(c, k, d, m)
  proof use blankLine()
  proof assert textAt(c, k+m, "\n") && d[:52*m] == d
  proof use oneLine(c, k+m, "\n")
  proof use dataLenIs(c, k, k+m)
lemma partData(c: []byte, k: int, d: []byte, m: int)
  requires 0 <= k && 0 <= m && 0 < len(d) - 52*m < 52 && textAt(c, k, fullText(d, m) ++ dataText(d[52*m:]) ++ "\n")
  ensures lineAt(c, k+m+1) == "\n" && dataLen(c, k) == m+1 && chunkData(c, k, m+1) == d
  ensures lineStart(c, k+m+2) == lineStart(c, k) + len(fullText(d, m)) + len(dataText(d[52*m:])) + 1
  proof let x = d[52*m:]
  proof use textSplit(c, k, fullText(d, m), dataText(x) ++ "\n")
  proof use fullLines(c, k, d, m)
  proof use chunkDataStep(c, k, m)
  proof use blankLine()
  proof use dataTextLine(x)
  proof assert textAt(c, k+m, dataText(x) ++ "\n")
  proof use textSplit(c, k+m, dataText(x), "\n")
  proof use oneLine(c, k+m, dataText(x))
  proof assert d[:52*m] ++ x == d
  proof assert textAt(c, k+m+1, "\n")
  proof use oneLine(c, k+m+1, "\n")
  proof assert forall j {lineStart(c, j)} :: k <= j < k+m+1 ==> j < k+m || j == k+m
  proof use dataLenIs(c, k, k+m+1)
lemma dataLines(c: []byte, k: int, d: []byte)
  requires 0 <= k && textAt(c, k, dataTexts(d) ++ "\n")
  ensures lineAt(c, k+dataCnt(d)) == "\n" && dataLen(c, k) == dataCnt(d) && chunkData(c, k, dataCnt(d)) == d
  ensures lineStart(c, k+dataCnt(d)+1) == lineStart(c, k) + len(dataTexts(d)) + 1
  proof use dataTextsIs(d)
  proof let m = len(d)/52
  proof use fullData(c, k, d, m)
  proof use partData(c, k, d, m)

pred binKept(f: *BinaryFragment): bool = f != nil && 0 <= f.Method <= 1 && 0 <= f.Size <= 9223372036854775807
pred methodText(m: int): []byte = if m == 0 then "delta" else "literal"
lemma binHdrParses(f: *BinaryFragment)
  requires binKept(f)
  ensures oneLineText(binHdrText(f)) && binHdrOf(f, binHdrText(f)) && isBinHdr(binHdrText(f))
  uses reveal:isBinHdr reveal:binMethod reveal:binNum reveal:binHdrOK
  proof let l = binHdrText(f)
  proof let w = methodText(f.Method)
  proof let t = itoa(f.Size)
  proof use itoaNum(f.Size)
  proof use itoaBytes(f.Size)
  proof assert l == w ++ " " ++ t ++ "\n"
  proof assert l[len(l)-1] == '\n' && binBare(l) == w ++ " " ++ t
  proof let b = w ++ " " ++ t
  proof assert b[:len(w)] == w && b[len(w)+1:] == t && b[len(w)] == ' ' && b[len(w):len(w)+1] == " "
  proof assert forall j {b[j]} :: 0 <= j < len(w) ==> b[j] == w[j] && b[j] != ' ' && b[j] != '\n'
  proof assert forall j {b[j]} :: len(w) < j < len(b) ==> b[j] == t[j-len(w)-1] && b[j] != '\n'
  proof use findAt(b, " ", 0, len(w))
  proof assert forall j {l[j]} :: 0 <= j < len(l)-1 ==> l[j] == b[j] && l[j] != '\n'
lemma binParses(f: *BinaryFragment, c: []byte, s: int)
  requires binKept(f) && s >= 0 && textAt(c, s, binText(f))
  ensures binHdrOf(f, lineAt(c, s)) && isBinHdr(lineAt(c, s)) && f.RawData == chunkData(c, s+1, dataLen(c, s+1)) && dataLen(c, s+1) == dataCnt(f.RawData)
  ensures lineAt(c, s+1+dataLen(c, s+1)) == "\n" && lineStart(c, binEnd(c, s)) == lineStart(c, s) + len(binText(f))
  proof use textSplit(c, s, binHdrText(f), dataTexts(f.RawData) ++ "\n")
  proof use binHdrParses(f)
  proof use oneLine(c, s, binHdrText(f))
  proof assert textAt(c, s+1, dataTexts(f.RawData) ++ "\n")
  proof use dataLines(c, s+1, f.RawData)

pred sameBin(f: *BinaryFragment, g: *BinaryFragment): bool = f.Method == g.Method && f.Size == g.Size && f.RawData == g.RawData
// the fragment ParseBinaryFragments makes of the formatted text is the same fragment
lemma binRoundTrip(f: *BinaryFragment, g: *BinaryFragment, c: []byte, s: int)
  requires binKept(f) && s >= 0 && textAt(c, s, binText(f)) && g != nil && parsedBin(g, c, s)
  ensures sameBin(f, g)
  proof use binParses(f, c, s)

// nothing in a formatted fragment is refused
lemma binAccepted(f: *BinaryFragment, c: []byte, s: int)
  requires binKept(f) && s >= 0 && textAt(c, s, binText(f))
  ensures binGood(c, s) && isBinHdr(lineAt(c, s)) && lineStart(c, binEnd(c, s)) == lineStart(c, s) + len(binText(f))
  uses reveal:binGood
  proof use binParses(f, c, s)

prop C09 (*BinaryFragment).String base85Decode (*parser).ParseBinaryFragments lemma=binRoundTrip lemma=binAccepted

func (*BinaryFragment).String() (s)
  requires recv != nil
  allocates
  ensures s == binText(recv)
