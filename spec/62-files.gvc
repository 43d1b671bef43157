// Whole patches.

// the line after the content of a file that starts at line s
opaque pred contentEnd(c: []byte, s: int): int = if isHdr(lineAt(c, s)) then fragsEnd(c, s) else binStop(c, s)
// the line of the i-th file's header (or of the first line that keeps the parser from finding it)
opaque pred fileLine(c: []byte, i: int): int = if i <= 0 then firstHead(c, 0) else firstHead(c, contentEnd(c, headEnd(c, fileLine(c, i-1))))

// f holds exactly the fragments written from line s on
pred textOf(f: *File, c: []byte, s: int): bool = forall j {f.TextFragments[j]} :: 0 <= j < len(f.TextFragments) ==> parsedFrag(f.TextFragments[j], c, fragAt(c, s, j))
pred allText(f: *File, c: []byte, s: int): bool = (len(f.TextFragments) > 0 <==> isHdr(lineAt(c, s))) && (len(f.TextFragments) > 0 ==> fragAt(c, s, len(f.TextFragments)) == fragsEnd(c, s))
pred binaryOf(f: *File, c: []byte, s: int): bool = if len(f.TextFragments) > 0 then noBinary(f) else binOf(f, c, s)
pred fragsOK(f: *File): bool = forall j {f.TextFragments[j]} :: 0 <= j < len(f.TextFragments) ==> selfFrag(f.TextFragments[j]) && !(f.IsNew && f.TextFragments[j].OldLines > 0) && !(f.IsDelete && f.TextFragments[j].NewLines > 0)
pred binStatus(f: *File): bool = (f.BinaryFragment != nil ==> f.IsBinary) && (f.ReverseBinaryFragment != nil ==> f.BinaryFragment != nil) && !(len(f.TextFragments) > 0 && f.BinaryFragment != nil)
pred nameStatus(f: *File): bool = fileNames(f) && f.Score <= 100

lemma fileLineStep(c: []byte, i: int)
  ensures fileLine(c, 0) == firstHead(c, 0)
  ensures 0 <= i ==> fileLine(c, i+1) == firstHead(c, contentEnd(c, headEnd(c, fileLine(c, i))))
  uses reveal:fileLine

lemma contentEndIs(c: []byte, s: int)
  ensures isHdr(lineAt(c, s)) ==> contentEnd(c, s) == fragsEnd(c, s)
  ensures !isHdr(lineAt(c, s)) ==> contentEnd(c, s) == binStop(c, s)
  uses reveal:contentEnd

opaque pred isHead(c: []byte, h: int): bool = headAt(c, h)
// a file that starts with a git header line has the fields written there
pred headOf(f: *File, c: []byte, h: int): bool = isHead(c, h) && (isGitHead(lineAt(c, h)) ==> headParses(c, h) && headVal(f) == headFields(c, h))

// the content from line s on does not make a file
opaque pred fileBad(c: []byte, s: int, isNew: bool, isDel: bool): bool = if isHdr(lineAt(c, s)) then fragsBad(c, s, isNew, isDel)
  | else hasBinData(lineAt(c, s)) && (!binGood(c, s+1) || isBinHdr(lineAt(c, binEnd(c, s+1))) && !binGood(c, binEnd(c, s+1)))
opaque pred refused(c: []byte, h: int): bool = (headAt(c, h) || hdrOK(lineAt(c, h))) && (isGitHead(lineAt(c, h)) ==> !headParses(c, h) || fileBad(c, headEnd(c, h), headFields(c, h).IsNew, headFields(c, h).IsDelete))

func Parse(r) (files, preamble, err)
  requires r != nil && spos(r) == 0
  modifies spos(r), iofail
  allocates
  ensures[io] iofail && !old(iofail) ==> err != nil
  ensures[io] old(iofail) ==> iofail
  ensures err != io.EOF
  ensures forall i {files[i]} :: 0 <= i < len(files) ==> files[i] != nil && fresh(files[i])
  ensures[names] forall i {files[i]} :: 0 <= i < len(files) ==> nameStatus(files[i]) && binStatus(files[i])
  ensures[self] forall i {files[i]} :: 0 <= i < len(files) ==> fragsOK(files[i])
  ensures[content] forall i {files[i]} :: 0 <= i < len(files) ==> textOf(files[i], sinput(r), headEnd(sinput(r), fileLine(sinput(r), i))) && binaryOf(files[i], sinput(r), headEnd(sinput(r), fileLine(sinput(r), i)))
  ensures[content] forall i {files[i]} :: 0 <= i < len(files) ==> allText(files[i], sinput(r), headEnd(sinput(r), fileLine(sinput(r), i)))
  ensures[head] forall i {files[i]} :: 0 <= i < len(files) ==> headOf(files[i], sinput(r), fileLine(sinput(r), i))
  uses reveal:fileBad reveal:refused reveal:isHead
  ensures[files] err != nil && !iofail ==> refused(sinput(r), fileLine(sinput(r), len(files)))
  ensures[content] err == nil ==> lineStart(sinput(r), fileLine(sinput(r), len(files))) >= len(sinput(r))
  ensures[content] err == nil || len(files) > 0 ==> preamble == sinput(r)[:lineStart(sinput(r), fileLine(sinput(r), 0))]
  ensures[files] !iofail ==> parsedInto(sinput(r), files, preamble, err != nil)
  entry[content] use fileLineStep(sinput(r), 0)
  entry use lineStartBounds(sinput(r), 0)
  entry use lineStartStep(sinput(r), 0)
  entry use lineStartBounds(sinput(r), 1)
  entry[content] use firstHeadStep(sinput(r), 0)
  entry assert lineStart(sinput(r), 0) == 0
  after ParseNextFileHeader let c1 = cur(p)
  after[content] ParseNextFileHeader use lineStartBounds(sinput(r), fileLine(sinput(r), len(files)))
  after[head] ParseNextFileHeader assert $res0 == nil || isHead(sinput(r), fileLine(sinput(r), len(files)))
  after[content] ParseNextFileHeader assert $res0 == nil || cur(p) == headEnd(sinput(r), fileLine(sinput(r), len(files)))
  local p *parser
  local file *File
  local preamble string
  local files []*File
  loop 1
    invariant pInv(p) && fresh(p)
    invariant[io] iofail == old(iofail)
    invariant pin(p) == sinput(r) && (p.r == r || fresh(p.r))
    invariant[content] firstHead(sinput(r), cur(p)) == fileLine(sinput(r), len(files))
    invariant[content] len(files) > 0 ==> preamble == sinput(r)[:lineStart(sinput(r), fileLine(sinput(r), 0))]
    invariant len(files) == 0 ==> cur(p) == 0
    invariant forall i {files[i]} :: 0 <= i < len(files) ==> files[i] != nil && fresh(files[i])
    invariant[names] forall i {files[i]} :: 0 <= i < len(files) ==> nameStatus(files[i]) && binStatus(files[i])
    invariant[self] forall i {files[i]} :: 0 <= i < len(files) ==> fragsOK(files[i])
    invariant[content] forall i {files[i]} :: 0 <= i < len(files) ==> textOf(files[i], sinput(r), headEnd(sinput(r), fileLine(sinput(r), i)))
    invariant[content] forall i {files[i]} :: 0 <= i < len(files) ==> allText(files[i], sinput(r), headEnd(sinput(r), fileLine(sinput(r), i)))
    invariant[content] forall i {files[i]} :: 0 <= i < len(files) ==> binaryOf(files[i], sinput(r), headEnd(sinput(r), fileLine(sinput(r), i)))
    invariant[head] forall i {files[i]} :: 0 <= i < len(files) ==> headOf(files[i], sinput(r), fileLine(sinput(r), i))
    end use lineStartMono(sinput(r), c1, cur(p))
    end[content] use contentEndIs(sinput(r), headEnd(sinput(r), fileLine(sinput(r), len(files)-1)))
    body[content] use fileLineStep(sinput(r), len(files))
    end use lineStartBounds(sinput(r), cur(p))
    end[content] use lineStartMono(sinput(r), headEnd(sinput(r), fileLine(sinput(r), len(files)-1)), cur(p))
    end assert files[len(files)-1] == file && len(files) > 0
    end[content] assert allText(file, sinput(r), headEnd(sinput(r), fileLine(sinput(r), len(files)-1)))
    end[content] assert textOf(file, sinput(r), headEnd(sinput(r), fileLine(sinput(r), len(files)-1)))
    end[content] assert binaryOf(file, sinput(r), headEnd(sinput(r), fileLine(sinput(r), len(files)-1)))
    end[self] assert fragsOK(file)
    end[head] assert headOf(file, sinput(r), fileLine(sinput(r), len(files)-1))
    end[names] assert nameStatus(file) && binStatus(file)
    decreases len(pin(p)) - lineStart(pin(p), cur(p))

prop T5 Parse kinds=all
prop C13 Parse lemma=consistentCounts lemma=okKnown without=content,names,io
prop C14 Parse without=self,names
prop C15 Parse without=content,self,io
prop T6 Parse kinds=all without=content,self,names,io
prop T7 Parse without=content,self,names
