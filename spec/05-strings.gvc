// Strings, and decimal and octal numbers.

pred hasPre(s: []byte, p: []byte): bool = len(p) <= len(s) && s[:len(p)] == p
pred hasSuf(s: []byte, p: []byte): bool = len(p) <= len(s) && s[len(s)-len(p):] == p
pred trimPre(s: []byte, p: []byte): []byte = if hasPre(s, p) then s[len(p):] else s
pred trimSuf(s: []byte, p: []byte): []byte = if hasSuf(s, p) then s[:len(s)-len(p)] else s

extern strings.HasPrefix(s, p) (r)
  ensures r <==> hasPre(s, p)
extern strings.HasSuffix(s, p) (r)
  ensures r <==> hasSuf(s, p)
extern strings.TrimPrefix(s, p) (r)
  ensures r == trimPre(s, p)
extern strings.TrimSuffix(s, p) (r)
  ensures r == trimSuf(s, p)

// first index at or after i at which sub occurs in s
pred find(s: []byte, sub: []byte, i: int): int = if i < 0 || i + len(sub) > len(s) then 0-1 else if s[i:i+len(sub)] == sub then i else find(s, sub, i+1)

lemma findBounds(s: []byte, sub: []byte, i: int)
  ensures find(s, sub, i) == 0-1 || i <= find(s, sub, i) && 0 <= find(s, sub, i) && find(s, sub, i) + len(sub) <= len(s) && s[find(s, sub, i):find(s, sub, i)+len(sub)] == sub
  trigger find(s, sub, i)
  decreases len(s) - i + 1
  proof case i < 0 || i + len(sub) > len(s)
  proof case s[i:i+len(sub)] == sub
  proof use findBounds(s, sub, i+1)

// nothing before k matches the first two bytes of sub, and sub occurs at k
lemma findAt(s: []byte, sub: []byte, i: int, k: int)
  requires 0 <= i <= k && k + len(sub) <= len(s) && s[k:k+len(sub)] == sub
  requires len(sub) > 0 && (forall j {s[j]} :: i <= j < k ==> s[j] != sub[0] || len(sub) > 1 && s[j+1] != sub[1])
  ensures find(s, sub, i) == k
  decreases k - i
  proof case i == k
  proof assert 0 <= s[i]
  proof assert i == k || s[i:i+len(sub)] != sub
  proof use findAt(s, sub, i+1, k)

extern strings.IndexByte(s, c) (r)
  ensures 0-1 <= r < len(s)
  ensures r == find(s, unit(c), 0)
  ensures r >= 0 ==> s[r] == c
  ensures forall j {s[j]} :: 0 <= j < len(s) && (j < r || r < 0) ==> s[j] != c

// not used by the code as it is, but close relatives of what it uses
extern strings.Index(s, sub) (r)
  ensures r == find(s, sub, 0) && 0-1 <= r
  ensures r >= 0 ==> r + len(sub) <= len(s) && s[r:r+len(sub)] == sub
extern strings.LastIndexByte(s, c) (r)
  ensures 0-1 <= r < len(s)
  ensures r >= 0 ==> s[r] == c
  ensures forall j {s[j]} :: 0 <= j < len(s) && j > r ==> s[j] != c
extern strings.IndexRune(s, c) (r)
  requires 0 <= c < 128
  ensures 0-1 <= r < len(s)
  ensures r == find(s, unit(c + 0), 0)
  ensures r >= 0 ==> s[r] == c
  ensures forall j {s[j]} :: 0 <= j < len(s) && (j < r || r < 0) ==> s[j] != c
extern strings.CutSuffix(s, p) (before, found)
  ensures (found <==> hasSuf(s, p)) && before == trimSuf(s, p)
extern strings.ContainsRune(s, c) (r)
  requires 0 <= c < 128
  ensures r <==> find(s, unit(c + 0), 0) >= 0
extern bytes.IndexByte(s, c) (r)
  ensures 0-1 <= r < len(s)
  ensures r == find(s, unit(c), 0)
  ensures r >= 0 ==> s[r] == c
  ensures forall j {s[j]} :: 0 <= j < len(s) && (j < r || r < 0) ==> s[j] != c
extern bytes.Equal(a, b) (r)
  ensures r <==> a == b
extern bytes.HasPrefix(s, p) (r)
  ensures r <==> hasPre(s, p)
extern bytes.HasSuffix(s, p) (r)
  ensures r <==> hasSuf(s, p)
pred inSet(c: int, cs: []byte): bool = find(cs, unit(c), 0) >= 0
pred trimSetR(s: []byte, cs: []byte): []byte = if len(s) > 0 && inSet(s[len(s)-1], cs) then trimSetR(s[:len(s)-1], cs) else s
pred trimSetL(s: []byte, cs: []byte): []byte = if len(s) > 0 && inSet(s[0], cs) then trimSetL(s[1:], cs) else s
extern strings.TrimRight(s, cs) (r)
  requires forall j {cs[j]} :: 0 <= j < len(cs) ==> cs[j] < 128
  ensures r == trimSetR(s, cs) && len(r) <= len(s) && r == s[:len(r)]
extern strings.TrimLeft(s, cs) (r)
  requires forall j {cs[j]} :: 0 <= j < len(cs) ==> cs[j] < 128
  ensures r == trimSetL(s, cs) && len(r) <= len(s) && r == s[len(s)-len(r):]

extern strings.SplitN(s, sep, n) (parts)
  requires n == 2 && len(sep) > 0
  allocates
  fresh parts
  ensures find(s, sep, 0) < 0 ==> parts == unit(s)
  ensures find(s, sep, 0) >= 0 ==> parts == unit(s[:find(s, sep, 0)]) ++ unit(s[find(s, sep, 0)+len(sep):])

extern strings.SplitAfterN(s, sep, n) (parts)
  requires n == 2 && len(sep) > 0
  allocates
  fresh parts
  ensures find(s, sep, 0) < 0 ==> parts == unit(s)
  ensures find(s, sep, 0) >= 0 ==> parts == unit(s[:find(s, sep, 0)+len(sep)]) ++ unit(s[find(s, sep, 0)+len(sep):])

extern strings.Split(s, sep) (parts)
  requires len(sep) > 0
  allocates
  fresh parts
  ensures find(s, sep, 0) < 0 ==> parts == unit(s)
  ensures find(s, sep, 0) >= 0 && find(s, sep, find(s, sep, 0)+len(sep)) < 0 ==> parts == unit(s[:find(s, sep, 0)]) ++ unit(s[find(s, sep, 0)+len(sep):])
  ensures find(s, sep, 0) >= 0 && find(s, sep, find(s, sep, 0)+len(sep)) >= 0 ==> len(parts) >= 3

// white space around a text
extern @pure trimmed(s: []byte): []byte
pred asciiSpace(b: int): bool = b == 32 || 9 <= b <= 13
extern strings.TrimSpace(s) (r)
  ensures r == trimmed(s)
axiom trimmedLen forall s: []byte {trimmed(s)} :: len(trimmed(s)) <= len(s)
axiom trimmedLeft forall s: []byte {trimmed(s)} :: len(s) > 0 && asciiSpace(s[0]) ==> trimmed(s) == trimmed(s[1:])
axiom trimmedRight forall s: []byte {trimmed(s)} :: len(s) > 0 && asciiSpace(s[len(s)-1]) ==> trimmed(s) == trimmed(s[:len(s)-1])

// no white space at either end
lemma @trusted trimmedWord(s: []byte)
  requires len(s) > 0 && 33 <= s[0] < 127 && 33 <= s[len(s)-1] < 127
  ensures trimmed(s) == s

// numbers
pred isDig(base: int, b: int): bool = 48 <= b && b < 48 + base
pred allDig(base: int, s: []byte, i: int): bool = i <= 0 || allDig(base, s, i-1) && isDig(base, s[i-1])
pred uval(base: int, s: []byte, i: int): int = if i <= 0 then 0 else (if base == 8 then 8 else 10) * uval(base, s, i-1) + s[i-1] - 48
pred isNeg(s: []byte): bool = len(s) > 0 && s[0] == '-'
pred unsigned(s: []byte): []byte = if len(s) > 0 && (s[0] == '-' || s[0] == '+') then s[1:] else s
pred maxInt(bits: int): int = if bits == 32 then 2147483647 else 9223372036854775807
opaque pred numVal(base: int, s: []byte): int = if isNeg(s) then 0 - uval(base, unsigned(s), len(unsigned(s))) else uval(base, unsigned(s), len(unsigned(s)))
opaque pred numOK(base: int, bits: int, s: []byte): bool = len(unsigned(s)) > 0 && allDig(base, unsigned(s), len(unsigned(s)))
  | && 0 - maxInt(bits) - 1 <= numVal(base, s) <= maxInt(bits)

extern strconv.ParseInt(s, base, bits) (n, err)
  requires (base == 10 || base == 8) && (bits == 64 || bits == 32)
  allocates
  ensures err == nil <==> numOK(base, bits, s)
  ensures len(s) == 0 ==> err != nil
  ensures err == nil ==> n == numVal(base, s) && 0 - maxInt(bits) - 1 <= n <= maxInt(bits)
  ensures err != nil ==> err.(*strconv.NumError) && fresh(err)

// what fmt prints for %d and %o
extern @pure itoa(n: int): []byte
extern @pure otoa(n: int): []byte
pred udec(base: int, n: int): []byte = if base == 8 then (if n < 8 then unit(48 + n) else udec(8, n/8) ++ unit(48 + n%8)) else (if n < 10 then unit(48 + n) else udec(10, n/10) ++ unit(48 + n%10))
axiom itoaDef forall n: int {itoa(n)} :: itoa(n) == (if n < 0 then unit(45) ++ udec(10, 0-n) else udec(10, n))
extern strconv.Itoa(n) (r)
  ensures r == itoa(n)
extern strconv.FormatInt(n, base) (r)
  requires base == 10 || base == 8 && n >= 0
  ensures base == 10 ==> r == itoa(n)
  ensures base == 8 ==> r == otoa(n)
extern strconv.Atoi(s) (n, err)
  allocates
  ensures err == nil <==> numOK(10, 64, s)
  ensures err == nil ==> n == numVal(10, s) && 0 - maxInt(64) - 1 <= n <= maxInt(64)
  ensures err != nil ==> err.(*strconv.NumError) && fresh(err)
axiom otoaDef forall n: int {otoa(n)} :: n >= 0 ==> otoa(n) == udec(8, n)

lemma allDigPre(base: int, s: []byte, t: []byte, i: int)
  requires i <= len(s)
  ensures allDig(base, s ++ t, i) == allDig(base, s, i) && uval(base, s ++ t, i) == uval(base, s, i)
  decreases max(i, 0)
  proof case i <= 0
  proof use allDigPre(base, s, t, i-1)
  proof assert (s ++ t)[i-1] == s[i-1]

lemma udecNum(base: int, n: int)
  requires 0 <= n && (base == 8 || base == 10)
  ensures len(udec(base, n)) > 0 && allDig(base, udec(base, n), len(udec(base, n))) && uval(base, udec(base, n), len(udec(base, n))) == n
  decreases n
  proof case n < base
  proof assert allDig(base, udec(base, n), 0) && uval(base, udec(base, n), 0) == 0
  proof use udecNum(base, n/base)
  proof use allDigPre(base, udec(base, n/base), unit(48 + n%base), len(udec(base, n/base)))

lemma digAt(base: int, s: []byte, i: int, j: int)
  requires 0 <= j < i && i <= len(s) && allDig(base, s, i)
  ensures isDig(base, s[j])
  trigger allDig(base, s, i), s[j]
  decreases i
  proof case j == i-1
  proof use digAt(base, s, i-1, j)

lemma allDigEach(base: int, s: []byte)
  requires allDig(base, s, len(s))
  ensures forall j {s[j]} :: 0 <= j < len(s) ==> isDig(base, s[j])
  uses digAt

lemma itoaNum(n: int)
  requires 0-9223372036854775808 <= n <= 9223372036854775807
  ensures numOK(10, 64, itoa(n)) && numVal(10, itoa(n)) == n
  uses reveal:numOK reveal:numVal
  proof use udecNum(10, n)
  proof use udecNum(10, 0-n)
  proof use digAt(10, udec(10, n), len(udec(10, n)), 0)
  proof case n < 0

// the bytes of a number
lemma itoaBytes(n: int)
  ensures len(itoa(n)) > 0 && (forall j {itoa(n)[j]} :: 0 <= j < len(itoa(n)) ==> itoa(n)[j] == 45 || isDig(10, itoa(n)[j]))
  proof use udecNum(10, n)
  proof use udecNum(10, 0-n)
  proof use allDigEach(10, udec(10, n))
  proof use allDigEach(10, udec(10, 0-n))
  proof case n < 0
