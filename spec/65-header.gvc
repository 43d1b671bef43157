// Patch headers, identities and dates.

// ---- white space

pred isWs(b: int): bool = b == 9 || b == 10 || b == 13 || b == 32

func isRFC5332Space(c) (r)
  ensures r <==> isWs(c)

// the first i bytes of s without surrounding white space and with single spaces inside
pred normTo(s: []byte, i: int): []byte = if i <= 0 then empty() else if isWs(s[i-1]) then normTo(s, i-1)
  | else if len(normTo(s, i-1)) > 0 && i >= 2 && isWs(s[i-2]) then normTo(s, i-1) ++ unit(32) ++ unit(s[i-1]) else normTo(s, i-1) ++ unit(s[i-1])
pred norm(s: []byte): []byte = normTo(s, len(s))

func normalizeSpace(s) (r)
  ensures r == norm(s)
  local sb strings.Builder
  local i int
  loop 1
    invariant 0 <= i <= len(s)
    invariant sb == normTo(s, i)
    invariant i == 0 ==> len(normTo(s, i)) == 0

// ---- quoted pairs: the text unquotePairs keeps from byte i on
pred unqFrom(s: []byte, i: int, quote: bool, comments: int, escaped: bool): []byte = if i >= len(s) || i < 0 then empty()
  | else if escaped then unit(s[i]) ++ unqFrom(s, i+1, quote, comments, false)
  | else if s[i] == '\\' then (if quote || comments > 0 then unqFrom(s, i+1, quote, comments, true) else unit(s[i]) ++ unqFrom(s, i+1, quote, comments, false))
  | else if s[i] == '"' then (if comments == 0 then unqFrom(s, i+1, !quote, comments, false) else unit(s[i]) ++ unqFrom(s, i+1, quote, comments, false))
  | else if s[i] == '(' then unit(s[i]) ++ unqFrom(s, i+1, quote, if quote then comments else comments + 1, false)
  | else if s[i] == ')' then unit(s[i]) ++ unqFrom(s, i+1, quote, if comments > 0 then comments - 1 else comments, false)
  | else unit(s[i]) ++ unqFrom(s, i+1, quote, comments, false)
pred unq(s: []byte): []byte = unqFrom(s, 0, false, 0, false)

func unquotePairs(s) (r)
  ensures r == unq(s)
  local out strings.Builder
  local i int
  local quote bool
  local comments int
  local escaped bool
  loop 1
    invariant 0 <= i <= len(s) && 0 <= comments <= i
    invariant out ++ unqFrom(s, i, quote, comments, escaped) == unq(s)

// ---- identities
extern strings.ContainsAny(s, chars) (r)
  ensures r <==> anyOf(s, chars, len(s))
pred anyOf(s: []byte, chars: []byte, i: int): bool = i > 0 && (anyOf(s, chars, i-1) || find(chars, unit(s[i-1]), 0) >= 0)

pred idBack(s: []byte, i: int): int = if i < 0 || i >= len(s) || isWs(s[i]) || s[i] == '<' then i else idBack(s, i-1)
pred idFwd(s: []byte, i: int): int = if i < 0 || i >= len(s) || isWs(s[i]) || s[i] == '>' then i else idFwd(s, i+1)
pred idAt(s: []byte): int = find(s, "@", 0)
pred idLt(s: []byte): int = find(s, "<", 0)
pred idGt(s: []byte): int = find(s, ">", idLt(s)+1)
pred idBr(s: []byte): bool = idLt(s) >= 0 && idGt(s) >= 0
pred idEmail(s: []byte): []byte = if idAt(s) >= 0 then s[idBack(s, idAt(s))+1:idFwd(s, idAt(s))] else if idBr(s) then trimmed(s[idLt(s)+1:idGt(s)]) else empty()
pred idLeft(s: []byte, i: int): []byte = if i < 0 || s[i] != '<' then s[:i+1] else s[:i]
pred idRight(s: []byte, i: int): []byte = if i >= len(s) || s[i] != '>' then s[i:] else s[i+1:]
pred idName0(s: []byte): []byte = if idAt(s) >= 0 then idLeft(s, idBack(s, idAt(s))) ++ idRight(s, idFwd(s, idAt(s))) else if idBr(s) then s[:idLt(s)] else empty()
pred unparen(s: []byte): []byte = if hasPre(s, "(") && hasSuf(s, ")") then s[1:len(s)-1] else s
pred idName1(s: []byte): []byte = trimmed(unparen(norm(idName0(s))))
pred idName(s: []byte): []byte = if len(idName1(s)) == 0 || anyOf(idName1(s), "@<>", len(idName1(s))) then idEmail(s) else idName1(s)

// the name and the address a text gives
opaque pred nameIn(s: []byte): []byte = idName(unq(norm(s)))
opaque pred emailIn(s: []byte): []byte = idEmail(unq(norm(s)))
func ParsePatchIdentity(s) (id, err)
  uses reveal:nameIn reveal:emailIn
  allocates
  ensures err == nil <==> len(nameIn(s)) > 0 || len(emailIn(s)) > 0
  ensures err == nil ==> id.Name == nameIn(s) && id.Email == emailIn(s)
  ensures err == nil ==> len(id.Name) > 0 || len(id.Email) > 0
  ensures err != io.EOF
  entry let u = unq(norm(s))
  local s string
  local at int
  local start int
  local end int
  local i int
  loop 1
    invariant 0-1 <= start <= at && at < len(s) && s == unq(norm(old(s)))
    invariant idBack(s, start) == idBack(s, at)
    decreases start + 1
  loop 2
    invariant at <= end <= len(s) && s == unq(norm(old(s)))
    invariant idFwd(s, end) == idFwd(s, at)
    decreases len(s) - end
  loop 3
    invariant 0 <= i <= len(s) && s == unq(norm(old(s))) && end == 0 && 0 <= start <= i
    invariant start == 0 ==> find(s, "<", 0) == find(s, "<", i)
    invariant start > 0 ==> find(s, "<", 0) == start-1 && find(s, ">", start) == find(s, ">", i)

func (PatchIdentity).String() (r)
  ensures r == (if len(recv.Name) == 0 then "\"\"" else recv.Name) ++ " <" ++ recv.Email ++ ">"

lemma normPre(s: []byte, t: []byte, i: int)
  requires i <= len(s)
  ensures normTo(s ++ t, i) == normTo(s, i)
  decreases max(i, 0)
  proof case i <= 0
  proof use normPre(s, t, i-1)
  proof assert (s ++ t)[i-1] == s[i-1]
  proof assert i < 2 || (s ++ t)[i-2] == s[i-2]

lemma normCong(x: []byte, y: []byte, b: []byte, k: int)
  requires 0 <= k <= len(b) && norm(x) == norm(y)
  requires len(norm(x)) == 0 || len(x) > 0 && len(y) > 0 && (isWs(x[len(x)-1]) <==> isWs(y[len(y)-1]))
  ensures normTo(x ++ b, len(x)+k) == normTo(y ++ b, len(y)+k)
  decreases k
  proof use normPre(x, b, len(x))
  proof use normPre(y, b, len(y))
  proof case k == 0
  proof use normCong(x, y, b, k-1)
  proof assert k == 0 || (x ++ b)[len(x)+k-1] == b[k-1] && (y ++ b)[len(y)+k-1] == b[k-1]
  proof case k == 1
  proof assert len(x) == 0 || (x ++ b)[len(x)-1] == x[len(x)-1]
  proof assert len(y) == 0 || (y ++ b)[len(y)-1] == y[len(y)-1]
  proof assert k <= 1 || (x ++ b)[len(x)+k-2] == b[k-2] && (y ++ b)[len(y)+k-2] == b[k-2]

pred allWs(w: []byte): bool = forall j {w[j]} :: 0 <= j < len(w) ==> isWs(w[j])

lemma normWs(a: []byte, w: []byte, k: int)
  requires allWs(w) && 0 <= k <= len(w)
  ensures normTo(a ++ w, len(a)+k) == norm(a)
  decreases k
  proof use normPre(a, w, len(a))
  proof case k == 0
  proof use normWs(a, w, k-1)
  proof assert k == 0 || (a ++ w)[len(a)+k-1] == w[k-1] && isWs(w[k-1])
  proof case len(a)+k <= 0

// a run of white space inside can be replaced by any other, and white space around dropped
lemma wsInside(a: []byte, w: []byte, v: []byte, b: []byte)
  requires allWs(w) && allWs(v) && len(w) > 0 && len(v) > 0
  ensures norm(a ++ w ++ b) == norm(a ++ v ++ b)
  proof use normWs(a, w, len(w))
  proof use normWs(a, v, len(v))
  proof assert (a ++ w)[len(a)+len(w)-1] == w[len(w)-1] && (a ++ v)[len(a)+len(v)-1] == v[len(v)-1]
  proof use normCong(a ++ w, a ++ v, b, len(b))
lemma wsAround(w: []byte, a: []byte, v: []byte)
  requires allWs(w) && allWs(v)
  ensures norm(w ++ a ++ v) == norm(a)
  proof use normWs(w ++ a, v, len(v))
  proof use normWs(empty(), w, len(w))
  proof assert empty() ++ w == w && empty() ++ a == a && normTo(empty(), 0) == empty()
  proof use normCong(w, empty(), a, len(a))

lemma normPlain(x: []byte, b: []byte, k: int)
  requires 0 <= k <= len(b) && len(x) > 0 && !isWs(x[len(x)-1]) && (forall j {b[j]} :: 0 <= j < len(b) ==> !isWs(b[j]))
  ensures normTo(x ++ b, len(x)+k) == norm(x) ++ b[:k]
  decreases k
  proof use normPre(x, b, len(x))
  proof case k == 0
  proof use normPlain(x, b, k-1)
  proof assert k == 0 || (x ++ b)[len(x)+k-1] == b[k-1] && !isWs(b[k-1]) && b[:k] == b[:k-1] ++ unit(b[k-1])
  proof case k == 1
  proof assert (x ++ b)[len(x)-1] == x[len(x)-1]
  proof assert k <= 1 || (x ++ b)[len(x)+k-2] == b[k-2] && !isWs(b[k-2])

pred pairChar(b: int): bool = b == '\\' || b == '"' || b == '(' || b == ')'
lemma unqPlain(s: []byte, i: int)
  requires 0 <= i <= len(s) && (forall j {s[j]} :: 0 <= j < len(s) ==> !pairChar(s[j]))
  ensures unqFrom(s, i, false, 0, false) == s[i:]
  decreases len(s) - i
  proof case i == len(s)
  proof use unqPlain(s, i+1)
  proof assert i == len(s) || !pairChar(s[i]) && s[i:] == unit(s[i]) ++ s[i+1:]

lemma idBackTo(s: []byte, i: int, j: int)
  requires 0 <= j <= i < len(s) && s[j] == '<' && (forall m {s[m]} :: j < m <= i ==> !isWs(s[m]) && s[m] != '<')
  ensures idBack(s, i) == j
  decreases i - j
  proof case i == j
  proof use idBackTo(s, i-1, j)
  proof assert !isWs(s[i])
lemma idFwdTo(s: []byte, i: int, j: int)
  requires 0 <= i <= j < len(s) && s[j] == '>' && (forall m {s[m]} :: i <= m < j ==> !isWs(s[m]) && s[m] != '>')
  ensures idFwd(s, i) == j
  decreases j - i
  proof case i == j
  proof use idFwdTo(s, i+1, j)
  proof assert !isWs(s[i])

lemma findUnit(c: int, b: int)
  ensures find(unit(c), unit(b), 0) >= 0 <==> c == b
  proof assert unit(c)[0:1] == unit(c)
lemma anyOfNone(s: []byte, i: int)
  requires i <= len(s) && (forall j {s[j]} :: 0 <= j < len(s) ==> s[j] != '@' && s[j] != '<' && s[j] != '>')
  ensures !anyOf(s, "@<>", i)
  decreases max(i, 0)
  proof case i <= 0
  proof use anyOfNone(s, i-1)
  proof use findBounds("@<>", unit(s[i-1]), 0)
  proof assert i <= 0 || s[i-1] != '@'

// an identity parses back from its text form
pred idNameOK(n: []byte): bool = len(n) > 0 && norm(n) == n && trimmed(n) == n && (forall j {n[j]} :: 0 <= j < len(n) ==> n[j] != '@' && n[j] != '<' && n[j] != '>' && !pairChar(n[j]))
pred idEmailOK(e: []byte): bool = trimmed(e) == e && (forall j {e[j]} :: 0 <= j < len(e) ==> !isWs(e[j]) && e[j] != '<' && e[j] != '>' && !pairChar(e[j]))
pred idText(n: []byte, e: []byte): []byte = (if len(n) == 0 then "\"\"" else n) ++ " <" ++ e ++ ">"

lemma idTextPlain(n: []byte, e: []byte)
  requires idNameOK(n) && idEmailOK(e)
  ensures norm(idText(n, e)) == idText(n, e) && unq(idText(n, e)) == idText(n, e)
  proof let x = n ++ " <"
  proof use normPre(n, " <", len(n))
  proof assert len(n) > 0 && !isWs(n[len(n)-1])
  proof assert x[len(n)] == 32 && x[len(n)+1] == '<' && len(x) == len(n) + 2
  proof assert normTo(x, len(n)+1) == n
  proof assert norm(x) == n ++ unit(32) ++ unit('<')
  proof assert norm(x) == x
  proof let b = e ++ ">"
  proof assert forall j {b[j]} :: 0 <= j < len(b) ==> !isWs(b[j])
  proof use normPlain(x, b, len(b))
  proof assert idText(n, e) == x ++ b
  proof assert forall j {idText(n, e)[j]} :: 0 <= j < len(idText(n, e)) ==> !pairChar(idText(n, e)[j])
  proof use unqPlain(idText(n, e), 0)

lemma idRoundTrip(n: []byte, e: []byte)
  requires idNameOK(n) && idEmailOK(e)
  ensures idName(unq(norm(idText(n, e)))) == n && idEmail(unq(norm(idText(n, e)))) == e
  proof use idTextPlain(n, e)
  proof let s = idText(n, e)
  proof let p = len(n) + 1
  proof assert len(s) == len(n) + len(e) + 3 && s[p] == '<' && s[len(s)-1] == '>'
  proof assert s[:p] == n ++ " " && s[:p-1] == n && s[p+1:len(s)-1] == e
  proof use findBounds(s, "@", 0)
  proof assert forall m {s[m]} :: 0 <= m < len(n) ==> s[m] == n[m]
  proof assert forall m {s[m]} :: p < m < len(s)-1 ==> s[m] == e[m-p-1]
  proof assert s[p-1] == ' '
  proof assert allWs(" ")
  proof use normWs(n, " ", 1)
  proof assert norm(n ++ " ") == n
  proof use anyOfNone(n, len(n))
  proof assert n[0] != '('
  proof assert unparen(n) == n
  proof case idAt(s) >= 0
  proof assert idAt(s) < 0 || s[idAt(s):idAt(s)+1] == "@"
  proof assert idAt(s) < 0 || s[idAt(s)] == '@'
  proof assert idAt(s) < 0 || p < idAt(s) && idAt(s) < len(s)-1
  proof use idBackTo(s, idAt(s), p)
  proof use idFwdTo(s, idAt(s), len(s)-1)
  proof use findAt(s, "<", 0, p)
  proof use findAt(s, ">", p+1, len(s)-1)
  proof assert idAt(s) < 0 || idBack(s, idAt(s)) == p && idFwd(s, idAt(s)) == len(s)-1
  proof assert idAt(s) < 0 || idEmail(s) == s[p+1:len(s)-1]
  proof assert idLt(s) == p && idGt(s) == len(s)-1
  proof assert idAt(s) >= 0 || idEmail(s) == trimmed(s[p+1:len(s)-1])
  proof assert idEmail(s) == e
  proof assert idName0(s) == n ++ " "

lemma identityTrip(n: []byte, e: []byte)
  requires idNameOK(n) && idEmailOK(e)
  ensures nameIn(idText(n, e)) == n && emailIn(idText(n, e)) == e
  uses reveal:nameIn reveal:emailIn
  proof use idRoundTrip(n, e)

prop C18 ParsePatchIdentity (PatchIdentity).String lemma=wsInside lemma=wsAround lemma=identityTrip

// ---- dates

// The time package is assumed to decide which texts a layout describes, and
// the instant (in nanoseconds since 1970) a text denotes when it has no zone of
// its own and is taken in zone loc.
extern @pure dateOK(layout: []byte, s: []byte): bool
extern @pure dateAt(layout: []byte, s: []byte, loc: any): int
extern @pure instant(t: time.Time): int
extern time.ParseInLocation(layout, s, loc) (t, err)
  allocates
  ensures err == nil <==> dateOK(layout, s)
  ensures err == nil ==> instant(t) == dateAt(layout, s, loc)
  ensures err != io.EOF
extern time.Parse(layout, s) (t, err)
  allocates
  ensures err == nil <==> dateOK(layout, s)
  ensures err == nil ==> instant(t) == dateAt(layout, s, time.UTC)
  ensures err != io.EOF
extern (time.Time).In(loc) (t)
  ensures instant(t) == instant(recv)
extern (time.Time).Location() (loc)
extern (time.Time).Equal(u) (r)
  ensures r <==> instant(recv) == instant(u)
extern time.Unix(sec, nsec) (t)
  ensures instant(t) == sec * 1000000000 + nsec

pred dateLayout(i: int): []byte = if i == 0 then "2006-01-02 15:04:05 -0700" else if i == 1 then "2006-01-02T15:04:05-07:00" else if i == 2 then "Mon, 2 Jan 2006 15:04:05 -0700"
  | else if i == 3 then "2006-01-02" else if i == 4 then "Mon Jan 2 15:04:05 2006 -0700" else "Mon Jan 2 15:04:05 2006"
pred dateForm(i: int, s: []byte): bool = dateOK(dateLayout(i), s)
pred inLayout(s: []byte): bool = dateForm(0, s) || dateForm(1, s) || dateForm(2, s) || dateForm(3, s) || dateForm(4, s) || dateForm(5, s)
pred rawAt(s: []byte): int = find(s, " ", 0)
pred isRaw(s: []byte): bool = rawAt(s) > 0 && numOK(10, 64, s[:rawAt(s)]) && dateOK("-0700", s[rawAt(s)+1:])

opaque pred dateFine(s: []byte): bool = len(s) == 0 || inLayout(s) || numOK(10, 64, s) || isRaw(s)
opaque pred dateIs(t: time.Time, s: []byte): bool = if len(s) == 0 then t == zero(time.Time) else (dateForm(0, s) && instant(t) == dateAt(dateLayout(0), s, time.Local))
  | || (dateForm(1, s) && instant(t) == dateAt(dateLayout(1), s, time.Local)) || (dateForm(2, s) && instant(t) == dateAt(dateLayout(2), s, time.Local))
  | || (dateForm(3, s) && instant(t) == dateAt(dateLayout(3), s, time.Local)) || (dateForm(4, s) && instant(t) == dateAt(dateLayout(4), s, time.Local))
  | || (dateForm(5, s) && instant(t) == dateAt(dateLayout(5), s, time.Local))
  | || (numOK(10, 64, s) && instant(t) == numVal(10, s) * 1000000000) || (isRaw(s) && instant(t) == numVal(10, s[:rawAt(s)]) * 1000000000)

func ParsePatchDate(s) (t, err)
  uses reveal:dateFine reveal:dateIs
  allocates
  ensures err == nil <==> dateFine(s)
  ensures err == nil ==> dateIs(t, s)
  ensures err != io.EOF

prop C20 ParsePatchDate

// ---- patch headers

// The lines of a text as bufio.Scanner sees them: the line that starts at i,
// without its end (a newline, or a carriage return and a newline), and where
// the next line starts.
opaque pred scanNext(s: []byte, i: int): int = lineEnd(s, i)
opaque pred scanLine(s: []byte, i: int): []byte = trimSuf(trimSuf(s[i:lineEnd(s, i)], "\n"), "\r")

// what a scanner reads, where its next line and its current line start, and its error
extern @pure scanIn(s: any): []byte
extern @pure scanMem(s: any): bool
extern @pure inMem(r: any): bool
ghostfield sat int
ghostfield stok int
ghostfield serr error
pred scanOK(s: *bufio.Scanner): bool = s != nil && 0 <= sat(s) <= len(scanIn(s))
extern bufio.NewScanner(r) (s)
  requires r != nil
  allocates
  fresh s
  ensures s != nil && sat(s) == 0 && serr(s) == nil
  ensures 0 <= spos(r) <= len(sinput(r)) ==> scanIn(s) == sinput(r)[spos(r):]
  ensures scanMem(s) <==> inMem(r)
extern (*bufio.Scanner).Scan() (ok)
  requires scanOK(recv)
  modifies sat(recv), stok(recv), serr(recv)
  ensures scanOK(recv)
  ensures ok ==> old(sat(recv)) < len(scanIn(recv)) && stok(recv) == old(sat(recv)) && sat(recv) == scanNext(scanIn(recv), old(sat(recv))) && sat(recv) > old(sat(recv)) && serr(recv) == nil
  ensures !ok ==> sat(recv) == old(sat(recv)) && (serr(recv) == nil ==> sat(recv) == len(scanIn(recv)))
  ensures old(serr(recv)) != nil ==> !ok && serr(recv) == old(serr(recv))
  // only a line that does not fit the scanner's buffer fails, apart from the reader
  ensures serr(recv) != nil && scanMem(recv) ==> len(scanIn(recv)) >= 65536
extern (*bufio.Scanner).Text() (s)
  requires recv != nil
  ensures s == scanLine(scanIn(recv), stok(recv))
extern (*bufio.Scanner).Err() (err)
  requires recv != nil
  ensures err == serr(recv)

extern strings.NewReader(s) (r)
  allocates
  fresh r
  ensures r != nil && sinput(r) == s && spos(r) == 0 && inMem(r)
extern strings.Cut(s, sep) (before, after, found)
  ensures found <==> find(s, sep, 0) >= 0
  ensures found ==> before == s[:find(s, sep, 0)] && after == s[find(s, sep, 0)+len(sep):]
  ensures !found ==> before == s && len(after) == 0
  ensures len(sep) == 1 && found ==> s[find(s, sep, 0)] == sep[0]
  ensures len(sep) == 1 ==> (forall j {s[j]} :: 0 <= j < len(s) && (j < find(s, sep, 0) || !found) ==> s[j] != sep[0])
extern strings.CutPrefix(s, p) (after, found)
  ensures (found <==> hasPre(s, p)) && after == trimPre(s, p)
extern strings.Contains(s, sub) (r)
  ensures r <==> find(s, sub, 0) >= 0
extern strings.ReplaceAll(s, x, y) (r)
extern @pure trimmedL(s: []byte): []byte
extern @pure trimmedR(s: []byte): []byte
extern @pure spaceRune(c: rune): bool
extern unicode.IsSpace(c) (r)
  ensures r <==> spaceRune(c)
extern strings.TrimLeftFunc(s, f) (r)
  callback f(c) result <==> spaceRune(c)
  ensures r == trimmedL(s)
extern strings.TrimRightFunc(s, f) (r)
  callback f(c) result <==> spaceRune(c)
  ensures r == trimmedR(s)
// where the first character that is not white space starts
extern @pure inkAt(s: []byte): int
extern strings.IndexFunc(s, f) (r)
  callback f(c) result <==> !spaceRune(c)
  ensures r == inkAt(s) && 0-1 <= r && (r < len(s) || r == 0-1)

// the value a mail message gives a header field
extern @pure mailField(msg: []byte, key: []byte): []byte
extern @pure hdrField(h: any, key: []byte): []byte
extern @pure mailOK(msg: []byte): bool
extern @pure mailBody(msg: []byte): []byte
extern mail.ReadMessage(r) (msg, err)
  requires r != nil && spos(r) == 0
  modifies spos(r)
  allocates
  fresh msg
  ensures inMem(r) ==> (err == nil <==> mailOK(sinput(r)))
  ensures err == nil ==> msg != nil && msg.Body != nil && sinput(msg.Body) == mailBody(sinput(r)) && spos(msg.Body) == 0 && (inMem(msg.Body) <==> inMem(r))
  ensures forall k: []byte {mailField(sinput(r), k)} :: err == nil ==> hdrField(msg.Header, k) == mailField(sinput(r), k)
extern (mail.Header).Get(key) (v)
  ensures v == hdrField(recv, key)

extern quotedprintable.NewReader(r) (q)
  requires r != nil
  allocates
  fresh q
  ensures q != nil
extern ioutil.ReadAll(r) (b, err)
  requires r != nil
  allocates
  fresh b

func (*PatchHeader).Message() (r)
  ensures r == (if recv == nil then empty() else recv.Title ++ (if len(recv.Body) > 0 then "\n\n" ++ recv.Body else empty()))

extern @pure optMode(o: PatchHeaderOption): int
extern functype.PatchHeaderOption(opts)
  requires opts != nil
  modifies opts.subjectCleanMode
  ensures opts.subjectCleanMode == optMode(recv)
func WithSubjectCleanMode(m) (o)
  allocates
  ensures o != nil && optMode(o) == m

pred modesOK(o: []PatchHeaderOption) = forall i {o[i]} :: 0 <= i < len(o) ==> o[i] != nil && 0 <= optMode(o[i]) <= 2
pred modeOf(o: []PatchHeaderOption): int = if len(o) == 0 then 1 else optMode(o[len(o)-1])

// the prefix and the title of a mail subject that is not MIME-encoded
pred subjectOf(prefix: []byte, title: []byte, s: []byte, mode: int): bool = (mode == 0 ==> len(prefix) == 0 && (!mimeText(s) ==> title == trimmed(s)))
  | && (mode != 0 ==> prefix == trimmedL(cutText(s, mode)) && (!mimeText(restText(s, mode)) ==> title == trimmedR(restText(s, mode))))

// a mail starts with a From line, which may already be a header field
pred firstLn(h: []byte): []byte = if find(h, "\n", 0) >= 0 then trimSuf(h[:find(h, "\n", 0)], "\r") else h
pred afterLn(h: []byte): []byte = if find(h, "\n", 0) >= 0 then h[find(h, "\n", 0)+1:] else empty()
pred isMail(h: []byte): bool = len(h) > 0 && (hasPre(firstLn(h), "From ") || hasPre(firstLn(h), "From:"))
pred mailText(h: []byte): []byte = if hasPre(firstLn(h), "From ") then afterLn(h) else h

// ---- what a header says

// the end of the fields or of the title: after the next blank line, or the end
pred inkLn(s: []byte, i: int): []byte = trimmed(scanLine(s, i))
pred blankAt(s: []byte, i: int): bool = i < 0 || i >= len(s) || len(inkLn(s, i)) == 0
pred paraEnd(s: []byte, i: int): int = if i < 0 || i >= len(s) then i else if len(inkLn(s, i)) == 0 then scanNext(s, i) else paraEnd(s, scanNext(s, i))
// the title: the lines of a paragraph, joined by single spaces
pred titleFrom(s: []byte, i: int, acc: []byte): []byte = if blankAt(s, i) then acc else titleFrom(s, scanNext(s, i), (if len(acc) > 0 then acc ++ " " else acc) ++ inkLn(s, i))
pred indentAt(s: []byte, i: int): []byte = if blankAt(s, i) || inkAt(scanLine(s, i)) <= 0 then empty() else scanLine(s, i)[:inkAt(scanLine(s, i))]
// the body: the lines without the indentation, each run of blank lines between them as one
pred bodyLn(s: []byte, i: int, ind: []byte): []byte = trimPre(trimmedR(scanLine(s, i)), ind)
pred bodyFrom(s: []byte, i: int, e: int, ind: []byte, acc: []byte, gap: bool): []byte = if i < 0 || i >= len(s) || i >= e then acc
  | else if len(bodyLn(s, i, ind)) == 0 then bodyFrom(s, scanNext(s, i), e, ind, acc, len(acc) > 0)
  | else bodyFrom(s, scanNext(s, i), e, ind, acc ++ (if len(acc) == 0 then empty() else if gap then "\n\n" else "\n") ++ bodyLn(s, i, ind), false)
// the line that starts the appendix
pred dashAt(s: []byte, i: int, ind: []byte): int = if i < 0 || i >= len(s) then len(s) else if bodyLn(s, i, ind) == "---" then i else dashAt(s, scanNext(s, i), ind)
lemma scanNextBounds(s: []byte, i: int)
  requires 0 <= i < len(s)
  ensures i < scanNext(s, i) <= len(s)
  uses reveal:scanNext lineEndBounds
lemma dashBounds(s: []byte, i: int, ind: []byte)
  requires 0 <= i <= len(s)
  ensures i <= dashAt(s, i, ind) <= len(s)
  decreases len(s) - i
  proof case i == len(s)
  proof use scanNextBounds(s, i)
  proof use dashBounds(s, scanNext(s, i), ind)
pred bodyOf(s: []byte, i: int, ind: []byte, sep: bool): []byte = bodyFrom(s, i, if sep then dashAt(s, i, ind) else len(s), ind, empty(), false)
pred appendixOf(s: []byte, i: int, ind: []byte, sep: bool): []byte = if sep && dashAt(s, i, ind) < len(s) then bodyFrom(s, scanNext(s, dashAt(s, i, ind)), len(s), ind, empty(), false) else empty()

// the fields: 0 author, 1 committer, 2 author date, 3 committer date
pred isField(l: []byte, k: int): bool = if k == 0 then hasPre(l, "Author:") else if k == 1 then hasPre(l, "Commit:") else if k == 2 then hasPre(l, "Date:") || hasPre(l, "AuthorDate:") else hasPre(l, "CommitDate:")
pred fieldVal(l: []byte): []byte = if hasPre(l, "Author:") then l[7:] else if hasPre(l, "Commit:") then l[7:] else if hasPre(l, "Date:") then trimmed(l[5:]) else trimmed(l[11:])
// the last line with the field
pred lastField(s: []byte, i: int, k: int): int = if blankAt(s, i) then 0-1 else if lastField(s, scanNext(s, i), k) >= 0 then lastField(s, scanNext(s, i), k) else if isField(scanLine(s, i), k) then i else 0-1
pred identOK(v: []byte): bool = len(nameIn(v)) > 0 || len(emailIn(v)) > 0
pred identIs(p: *PatchIdentity, v: []byte): bool = p != nil && p.Name == nameIn(v) && p.Email == emailIn(v)
pred fieldBad(l: []byte): bool = (isField(l, 0) || isField(l, 1)) && !identOK(fieldVal(l)) || (isField(l, 2) || isField(l, 3)) && !dateFine(fieldVal(l))
pred fieldsBad(s: []byte, i: int): bool = !blankAt(s, i) && (fieldBad(scanLine(s, i)) || fieldsBad(s, scanNext(s, i)))

pred personIs(p: *PatchIdentity, s: []byte, at: int): bool = if at < 0 then p == nil else identIs(p, fieldVal(scanLine(s, at)))
pred whenIs(t: time.Time, s: []byte, at: int): bool = if at < 0 then t == zero(time.Time) else dateIs(t, fieldVal(scanLine(s, at)))
pred wordTo(l: []byte): []byte = if find(l, " ", 0) > 0 then l[:find(l, " ", 0)] else l

pred prettyFields(h: *PatchHeader, s: []byte): bool = personIs(h.Author, s, lastField(s, 0, 0)) && personIs(h.Committer, s, lastField(s, 0, 1))
  | && whenIs(h.AuthorDate, s, lastField(s, 0, 2)) && whenIs(h.CommitterDate, s, lastField(s, 0, 3))
pred prettyText(h: *PatchHeader, s: []byte, t: int): bool = h.Title == titleFrom(s, t, empty())
  | && h.Body == (if len(titleFrom(s, t, empty())) > 0 then bodyOf(s, paraEnd(s, t), indentAt(s, t), false) else empty())
pred prettyIs(h: *PatchHeader, first: []byte, s: []byte): bool = h.SHA == wordTo(trimPre(first, "commit ")) && prettyFields(h, s) && prettyText(h, s, paraEnd(s, 0))
  | && len(h.SubjectPrefix) == 0 && len(h.BodyAppendix) == 0
pred mailSHA(h: *PatchHeader, first: []byte): bool = h.SHA == (if hasPre(first, "From ") && find(trimPre(first, "From "), " ", 0) > 0 then wordTo(trimPre(first, "From ")) else empty())
pred mailFields(h: *PatchHeader, m: []byte): bool = (if len(mailField(m, "From")) > 0 then identIs(h.Author, mailField(m, "From")) else h.Author == nil) && h.Committer == nil
  | && (if len(mailField(m, "Date")) > 0 then dateIs(h.AuthorDate, mailField(m, "Date")) else h.AuthorDate == zero(time.Time)) && h.CommitterDate == zero(time.Time)
pred mailMessage(h: *PatchHeader, m: []byte): bool = h.Body == bodyOf(mailBody(m), 0, empty(), true) && h.BodyAppendix == appendixOf(mailBody(m), 0, empty(), true)
pred mailBad(m: []byte): bool = !mailOK(m) || len(mailField(m, "From")) > 0 && !identOK(mailField(m, "From")) || len(mailField(m, "Date")) > 0 && !dateFine(mailField(m, "Date"))
pred isPretty(h: []byte): bool = !isMail(h) && hasPre(firstLn(h), "commit ")
pred firstOf(h: []byte): []byte = if hasPre(firstLn(h), "From ") then firstLn(h) else empty()
pred noHeader(h: *PatchHeader): bool = len(h.SHA) == 0 && h.Author == nil && h.Committer == nil && h.AuthorDate == zero(time.Time) && h.CommitterDate == zero(time.Time) && len(h.Title) == 0 && len(h.Body) == 0 && len(h.SubjectPrefix) == 0 && len(h.BodyAppendix) == 0

func ParsePatchHeader(header, options) (h, err)
  requires modesOK(options)
  allocates
  ensures err == nil ==> h != nil
  ensures[subject] err == nil && isMail(trimmed(header)) ==> subjectOf(h.SubjectPrefix, h.Title, mailField(mailText(trimmed(header)), "Subject"), modeOf(options))
  ensures[message] len(trimmed(header)) == 0 ==> err == nil && noHeader(h)
  ensures[message] err == nil && isPretty(trimmed(header)) ==> prettyIs(h, firstLn(trimmed(header)), afterLn(trimmed(header)))
  ensures[message] err == nil && isMail(trimmed(header)) ==> mailSHA(h, firstOf(trimmed(header))) && mailFields(h, mailText(trimmed(header))) && mailMessage(h, mailText(trimmed(header)))
  ensures[message] isPretty(trimmed(header)) && fieldsBad(afterLn(trimmed(header)), 0) ==> err != nil
  ensures[message] isMail(trimmed(header)) && mailBad(mailText(trimmed(header))) ==> err != nil
  ensures[message] isPretty(trimmed(header)) && err != nil ==> fieldsBad(afterLn(trimmed(header)), 0) || len(afterLn(trimmed(header))) >= 65536
  ensures[message] isMail(trimmed(header)) && err != nil ==> mailBad(mailText(trimmed(header))) || len(mailBody(mailText(trimmed(header)))) >= 65536
  ensures[message] len(trimmed(header)) > 0 && !isPretty(trimmed(header)) && !isMail(trimmed(header)) ==> err != nil
  local opts patchHeaderOptions
  loop 1
    invariant opts.subjectCleanMode == (if $i == 0 then 1 else optMode(options[$i-1]))

func parseHeaderPretty(prettyLine, r) (h, err)
  requires r != nil && spos(r) == 0
  allocates
  ensures err == nil ==> h != nil
  ensures[message] err == nil ==> prettyIs(h, prettyLine, sinput(r))
  ensures[message] fieldsBad(sinput(r), 0) ==> err != nil
  ensures[message] inMem(r) && err != nil ==> fieldsBad(sinput(r), 0) || len(sinput(r)) >= 65536
  local h *PatchHeader
  local s *bufio.Scanner
  loop 1
    invariant h != nil && fresh(h) && s != nil && fresh(s) && scanOK(s)
    invariant[message] scanIn(s) == sinput(r) && (scanMem(s) <==> inMem(r)) && serr(s) == nil
    invariant[message] h.SHA == wordTo(trimPre(old(prettyLine), "commit "))
    invariant[message] len(h.SubjectPrefix) == 0 && len(h.BodyAppendix) == 0 && len(h.Title) == 0 && len(h.Body) == 0
    invariant[message] paraEnd(sinput(r), sat(s)) == paraEnd(sinput(r), 0)
    invariant[message] fieldsBad(sinput(r), sat(s)) <==> fieldsBad(sinput(r), 0)
    invariant[message] forall k {lastField(sinput(r), sat(s), k)} :: 0 <= k <= 3 && lastField(sinput(r), sat(s), k) >= 0 ==> lastField(sinput(r), 0, k) == lastField(sinput(r), sat(s), k)
    invariant[message] lastField(sinput(r), sat(s), 0) < 0 ==> personIs(h.Author, sinput(r), lastField(sinput(r), 0, 0))
    invariant[message] lastField(sinput(r), sat(s), 1) < 0 ==> personIs(h.Committer, sinput(r), lastField(sinput(r), 0, 1))
    invariant[message] lastField(sinput(r), sat(s), 2) < 0 ==> whenIs(h.AuthorDate, sinput(r), lastField(sinput(r), 0, 2))
    invariant[message] lastField(sinput(r), sat(s), 3) < 0 ==> whenIs(h.CommitterDate, sinput(r), lastField(sinput(r), 0, 3))
    decreases len(scanIn(s)) - sat(s)

func scanMessageTitle(s) (title, indent)
  requires scanOK(s)
  modifies sat(s), stok(s), serr(s)
  allocates
  ensures scanOK(s)
  ensures[message] serr(s) == nil ==> title == titleFrom(scanIn(s), old(sat(s)), empty()) && indent == indentAt(scanIn(s), old(sat(s))) && sat(s) == paraEnd(scanIn(s), old(sat(s)))
  ensures[message] serr(s) != nil && scanMem(s) && old(serr(s)) == nil ==> len(scanIn(s)) >= 65536
  local b strings.Builder
  local i int
  loop 1
    invariant scanOK(s) && sat(s) >= old(sat(s))
    invariant[message] serr(s) == old(serr(s)) && (i > 0 ==> serr(s) == nil)
    invariant[message] i >= 0 && (i > 0 <==> len(b) > 0) && (i == 0 ==> sat(s) == old(sat(s)) && len(indent) == 0)
    invariant[message] i > 0 ==> indent == indentAt(scanIn(s), old(sat(s)))
    invariant[message] titleFrom(scanIn(s), sat(s), b) == titleFrom(scanIn(s), old(sat(s)), empty())
    invariant[message] paraEnd(scanIn(s), sat(s)) == paraEnd(scanIn(s), old(sat(s)))
    decreases len(scanIn(s)) - sat(s)

func scanMessageBody(s, indent, separateAppendix) (body, appendix)
  requires scanOK(s)
  modifies sat(s), stok(s), serr(s)
  allocates
  ensures scanOK(s)
  ensures[message] serr(s) == nil ==> body == bodyOf(scanIn(s), old(sat(s)), indent, separateAppendix) && appendix == appendixOf(scanIn(s), old(sat(s)), indent, separateAppendix)
  ensures[message] serr(s) != nil && scanMem(s) && old(serr(s)) == nil ==> len(scanIn(s)) >= 65536
  local c *strings.Builder
  local body strings.Builder
  local appendix strings.Builder
  local empty int
  loop 1
    invariant scanOK(s) && sat(s) >= old(sat(s)) && empty >= 0
    invariant[message] serr(s) == old(serr(s)) && (c == addr(body) || c == addr(appendix)) && addr(body) != addr(appendix)
    invariant[message] c == addr(body) ==> len(appendix) == 0 && (separateAppendix ==> dashAt(scanIn(s), sat(s), indent) == dashAt(scanIn(s), old(sat(s)), indent))
    invariant[message] c == addr(body) && !separateAppendix ==> bodyFrom(scanIn(s), sat(s), len(scanIn(s)), indent, body, len(body) > 0 && empty > 0) == bodyOf(scanIn(s), old(sat(s)), indent, false)
    invariant[message] c == addr(body) && separateAppendix ==> bodyFrom(scanIn(s), sat(s), dashAt(scanIn(s), sat(s), indent), indent, body, len(body) > 0 && empty > 0) == bodyOf(scanIn(s), old(sat(s)), indent, true)
    invariant[message] c == addr(appendix) ==> separateAppendix && dashAt(scanIn(s), old(sat(s)), indent) < len(scanIn(s)) && body == bodyOf(scanIn(s), old(sat(s)), indent, true)
    invariant[message] c == addr(appendix) ==> bodyFrom(scanIn(s), sat(s), len(scanIn(s)), indent, appendix, len(appendix) > 0 && empty > 0) == appendixOf(scanIn(s), old(sat(s)), indent, true)
    body[message] use dashBounds(scanIn(s), sat(s), indent)
    decreases len(scanIn(s)) - sat(s)

func parseHeaderMail(mailLine, r, opts) (h, err)
  merge
  requires r != nil && spos(r) == 0 && 0 <= opts.subjectCleanMode <= 2
  modifies spos(r)
  allocates
  ensures err == nil ==> h != nil
  ensures[subject] err == nil ==> subjectOf(h.SubjectPrefix, h.Title, mailField(sinput(r), "Subject"), opts.subjectCleanMode)
  ensures[message] err == nil ==> mailSHA(h, mailLine)
  ensures[message] err == nil ==> mailFields(h, sinput(r))
  ensures[message] err == nil ==> mailMessage(h, sinput(r))
  ensures[message] inMem(r) && mailBad(sinput(r)) ==> err != nil
  ensures[message] inMem(r) && err != nil ==> mailBad(sinput(r)) || len(mailBody(sinput(r))) >= 65536

// ---- subjects

pred mimeText(s: []byte): bool = hasPre(s, "=?UTF-8?q?")
func decodeSubject(s) (r)
  allocates
  ensures !mimeText(s) ==> r == s

pred reMark(s: []byte, i: int): bool = i+2 < len(s) && (s[i] == 'r' || s[i] == 'R') && (s[i+1] == 'e' || s[i+1] == 'E') && s[i+2] == ':'
pred brackEnd(s: []byte, i: int): int = find(s, "]", i)
pred brackCut(s: []byte, i: int, mode: int): bool = s[i] == '[' && brackEnd(s, i) >= 0 && (mode == 1 || find(s[i:brackEnd(s, i)+1], "PATCH", 0) >= 0)
// where the part of s[i:] to remove ends
pred cutEnd(s: []byte, i: int, mode: int): int = if i < 0 || i >= len(s) then i else if reMark(s, i) then cutEnd(s, i+3, mode)
  | else if s[i] == ' ' || s[i] == '\t' || s[i] == ':' then cutEnd(s, i+1, mode)
  | else if brackCut(s, i, mode) then cutEnd(s, brackEnd(s, i)+1, mode) else i
pred cutText(s: []byte, mode: int): []byte = s[:cutEnd(s, 0, mode)]
pred restText(s: []byte, mode: int): []byte = s[cutEnd(s, 0, mode):]

lemma findTail(s: []byte, sub: []byte, i: int, k: int)
  requires 0 <= i <= k && k <= len(s)
  ensures find(s, sub, k) == (if find(s[i:], sub, k-i) < 0 then 0-1 else find(s[i:], sub, k-i) + i)
  decreases len(s) - k
  proof case k + len(sub) > len(s)
  proof assert k + len(sub) > len(s) || s[i:][k-i:k-i+len(sub)] == s[k:k+len(sub)]
  proof case k == len(s)
  proof use findTail(s, sub, i, k+1)

func cleanSubject(s, mode) (prefix, subject)
  requires 0 <= mode <= 2
  allocates
  ensures mode == 0 ==> len(prefix) == 0
  ensures mode == 0 && !mimeText(s) ==> subject == trimmed(s)
  ensures mode != 0 ==> prefix == trimmedL(cutText(s, mode))
  ensures mode != 0 && !mimeText(restText(s, mode)) ==> subject == trimmedR(restText(s, mode))
  loop 1
    invariant 0 <= at <= len(s)
    invariant cutEnd(s, 0, mode) == cutEnd(s, at, mode)
    body use findTail(s, "]", at, at)
    decreases len(s) - at

// nothing is lost, and the removal stops where nothing more can be removed
lemma cutBounds(s: []byte, i: int, mode: int)
  requires 0 <= i <= len(s)
  ensures i <= cutEnd(s, i, mode) <= len(s)
  ensures cutEnd(s, i, mode) == len(s) || !cuttable(s, cutEnd(s, i, mode), mode)
  decreases len(s) - i
  proof case i == len(s)
  proof case reMark(s, i)
  proof case s[i] == ' ' || s[i] == '\t' || s[i] == ':'
  proof case brackCut(s, i, mode)
  proof use findBounds(s, "]", i)
  proof use cutBounds(s, i+3, mode)
  proof use cutBounds(s, i+1, mode)
  proof use cutBounds(s, brackEnd(s, i)+1, mode)
pred cuttable(s: []byte, i: int, mode: int): bool = reMark(s, i) || s[i] == ' ' || s[i] == '\t' || s[i] == ':' || brackCut(s, i, mode)
lemma cutWhole(s: []byte, mode: int)
  ensures cutText(s, mode) ++ restText(s, mode) == s
  ensures len(restText(s, mode)) > 0 ==> !cuttable(s, len(cutText(s, mode)), mode)
  proof use cutBounds(s, 0, mode)

prop C19 ParsePatchHeader cleanSubject lemma=cutWhole
prop C22 ParsePatchHeader WithSubjectCleanMode without=subject with=message
prop T8 ParsePatchHeader ParsePatchIdentity (*PatchHeader).Message (PatchIdentity).String kinds=all
