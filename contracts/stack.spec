// ---------------------------------------------------------------------------
// Stack traces.
// ---------------------------------------------------------------------------

uf funcforpc(pc int) : Ref as funcforpc
uf funcname(f Ref) : string as funcname
uf funcfile(f Ref, pc int) : string as funcfile
uf funcline(f Ref, pc int) : int as funcline
uf lastidx(s string, t string) : int as strlastindex
uf firstidx(s string, t string) : int as strindex
uf goroot() : string as GOROOT
uf hasprefix(s string, t string) : bool as strprefix

// package and name of a function called s: split at the first dot after the last slash
fun afterSlash(s string) : string = if lastidx(s, "/") < 0 then s else substr(s, lastidx(s, "/") + 1, len(s) - lastidx(s, "/") - 1)
fun uptoSlash(s string) : string = if lastidx(s, "/") < 0 then "" else substr(s, 0, lastidx(s, "/")) + "/"
fun pkgOf(s string) : string = let b = afterSlash(s) :: uptoSlash(s) + (if firstidx(b, ".") < 0 then "" else substr(b, 0, firstidx(b, ".")))
fun nameOf(s string) : string = let b = afterSlash(s) :: if firstidx(b, ".") < 0 then b else substr(b, firstidx(b, ".") + 1, len(b) - firstidx(b, ".") - 1)

pred frameAt(f stack.Frame, pc int) = f.ProgramCounter == pc &&
  (if pc == 0 || funcforpc(pc) == nil then f.File == "" && f.LineNumber == 0 && f.Name == "" && f.Package == "" && !f.IsSystemPackage
   else let n = funcname(funcforpc(pc)) :: f.Package == pkgOf(n) && f.Name == nameOf(n)
     && f.File == funcfile(funcforpc(pc), pc-1) && f.LineNumber == funcline(funcforpc(pc), pc-1) && (f.IsSystemPackage <==> hasprefix(f.File, global(stack.goroot))))

contract stack.NewFrame(pc)
  root C26
  requires pc >= 0
  ensures [frame] frameAt(result, pc)
  ensures [root] global(stack.goroot) == goroot()

contract stack.NewTrace(skip)
  root C26
  inline
  requires skip >= 0 && global(stack.MaxStackDepth) >= 0
  assigns events
  ensures [captured] nev() == old(nev()) + 1 && event(old(nev()), "runtime.Callers", 2 + skip, global(stack.MaxStackDepth), len(result.stack), _)
  ensures [frames] result != nil && fresh(result) && result.frames == nil && (forall i: int :: 0 <= i && i < len(result.stack) ==> result.stack[i] == select(evarg(ev(old(nev())), "runtime.Callers", 3), i))

pred trFrames(t *stack.Trace) = len(t.frames) == len(t.stack) && (forall i: int :: 0 <= i && i < len(t.stack) ==> frameAt(t.frames[i], t.stack[i]))
pred trOK(t *stack.Trace) = isobj(t) && (forall i: int :: 0 <= i && i < len(t.stack) ==> t.stack[i] >= 0) && (t.frames != nil ==> trFrames(t))

contract (*stack.Trace).Frames(t)
  root C26
  requires t != nil && trOK(t)
  assigns t.frames
  invariant [sofar] len(t.frames) == len(t.stack) && (forall i: int :: 0 <= i && i < $i && i < len(t.stack) ==> frameAt(t.frames[i], t.stack[i]))
  invariant [sofar2] with $f: []stack.Frame :: len($f) == len(t.stack) && (forall i: int :: 0 <= i && i < $i && i < len(t.stack) ==> frameAt($f[i], t.stack[i]))
  ensures [frames] result == t.frames && result != nil && trFrames(t)
  ensures [again] old(t.frames) != nil ==> result == old(t.frames)

rec framesText(a intarr, o int, n int) : string = if n <= 0 then "" else framesText(a, o, n-1) + frameText(select(a, o+n-1)) + "\n"
rec frameText(pc int) : string = if pc == 0 || funcforpc(pc) == nil then ":" + itoa(0) + " " else funcfile(funcforpc(pc), pc-1) + ":" + itoa(funcline(funcforpc(pc), pc-1)) + " " + nameOf(funcname(funcforpc(pc)))

contract (*stack.Trace).Stack(t)
  root C26
  requires t != nil && trOK(t)
  assigns t.frames
  invariant [lines] with $b: *bytes.Buffer :: content($b) == framesText(arr(t.stack), off(t.stack), $i)
  ensures [text] content(result) == framesText(arr(t.stack), off(t.stack), len(t.stack))
