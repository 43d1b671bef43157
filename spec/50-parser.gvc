// The parser's three-line window over its input.

// the bytes a reader delivers from its start; how many were delivered
extern @pure sinput(r: any): []byte
axiom sinputLen forall r: any {sinput(r)} :: len(sinput(r)) <= 4611686018427387904
ghostfield spos int

iface stringReader.ReadString(delim) (s, err)
  requires recv != nil && delim == '\n' && 0 <= spos(recv) <= len(sinput(recv))
  modifies spos(recv), iofail
  ensures old(spos(recv)) <= spos(recv) <= len(sinput(recv))
  ensures s == sinput(recv)[old(spos(recv)):spos(recv)]
  ensures err == nil || err == io.EOF ==> spos(recv) == lineEnd(sinput(recv), old(spos(recv)))
  ensures iofail <==> old(iofail) || (err != nil && err != io.EOF)

// the line d lines after the current one
pred pin(p: *parser): []byte = sinput(p.r)
pred cur(p: *parser): int = p.lineno - 1
pred pInv(p: *parser) = p != nil && p.r != nil && p.err == nil && 1 <= p.lineno && spos(p.r) == lineStart(pin(p), p.lineno+2)
  | && p.lines[0] == lineAt(pin(p), p.lineno-1) && p.lines[1] == lineAt(pin(p), p.lineno) && p.lines[2] == lineAt(pin(p), p.lineno+1)
  | && (p.eof <==> len(p.lines[0]) == 0)
pred pNew(p: *parser) = p != nil && p.r != nil && p.err == nil && p.lineno == 0 && !p.eof && spos(p.r) == 0

// a read failed: the parser only reports that error from now on
pred pBad(p: *parser) = p != nil && p.err != nil && p.err != io.EOF && iofail

func (*parser).Next() (err)
  requires pInv(recv) || pNew(recv) || pBad(recv)
  modifies recv.eof, recv.err, recv.lineno, recv.lines, spos(recv.r), iofail
  uses group:lines
  entry assert pBad(recv) || lineStart(pin(recv),0) == 0 && lineStart(pin(recv),1) == lineEnd(pin(recv),0)
  entry assert pBad(recv) || lineStart(pin(recv),2) == lineEnd(pin(recv),lineStart(pin(recv),1)) && lineStart(pin(recv),3) == lineEnd(pin(recv),lineStart(pin(recv),2))
  entry assert pBad(recv) || lineStart(pin(recv),recv.lineno+3) == lineEnd(pin(recv),lineStart(pin(recv),recv.lineno+2))
  ensures[io] iofail <==> old(iofail) || (err != nil && err != io.EOF)
  ensures err == nil || err == io.EOF ==> pInv(recv)
  ensures err != nil && err != io.EOF ==> pBad(recv)
  ensures old(pBad(recv)) ==> err != nil && err != io.EOF
  ensures err == nil ==> !recv.eof
  ensures err == io.EOF ==> recv.eof
  ensures err == nil || err == io.EOF ==> recv.lineno == (if old(recv.eof) then old(recv.lineno) else old(recv.lineno) + 1)
  loop 1
    unroll
  loop 2
    unroll

func newParser(r) (p)
  requires r != nil && spos(r) == 0
  allocates
  fresh p
  ensures pNew(p) && sinput(p.r) == sinput(r)
  ensures p.r == r || fresh(p.r)

extern bufio.NewReader(rd) (r)
  requires rd != nil && spos(rd) == 0
  allocates
  fresh r
  ensures r != nil && sinput(r) == sinput(rd) && spos(r) == 0

prop T1 newParser (*parser).Next kinds=all lemma=itoaNum lemma=itoaBytes lemma=findAt lemma=findBounds
