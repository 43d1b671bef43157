// Formatting.

// a formatter that writes to a builder in memory
pred fmOK(fm: *formatter): bool = fm != nil && fm.w != nil && fm.w.(*strings.Builder) && fm.err == nil

func (*formatter).Write(p) (n, err)
  requires fmOK(recv)
  modifies out(recv.w)
  ensures n == len(p) && err == nil
  ensures out(recv.w) == old(out(recv.w)) ++ p

func (*formatter).WriteString(s) (n, err)
  requires fmOK(recv)
  modifies out(recv.w)
  ensures n == len(s) && err == nil
  ensures out(recv.w) == old(out(recv.w)) ++ s

func (*formatter).WriteByte(c) (err)
  requires fmOK(recv)
  modifies out(recv.w)
  ensures err == nil
  ensures out(recv.w) == old(out(recv.w)) ++ unit(c)

// the header line of a text fragment
pred hdrText(f: *TextFragment): []byte = "@@ -" ++ itoa(f.OldPosition) ++ "," ++ itoa(f.OldLines) ++ " +" ++ itoa(f.NewPosition) ++ "," ++ itoa(f.NewLines) ++ " @@" ++ (if f.Comment == "" then empty() else " " ++ f.Comment)

func (*formatter).FormatTextFragmentHeader(f) ()
  requires fmOK(recv) && f != nil
  modifies out(recv.w)
  ensures out(recv.w) == old(out(recv.w)) ++ hdrText(f)

func (*TextFragment).Header() (s)
  requires recv != nil
  allocates
  ensures s == hdrText(recv)

prop T4 (*TextFragment).Header kinds=all
