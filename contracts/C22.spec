# C22  GinkgoWriter keeps every byte, in order
guard internal.Writer.lock: buffer, mode, teeWriters, indentNext, kept, nkept, streamed, nstreamed, writes, nwrites

# what the buffer holds, what the output has received (apart from indentation), and every write to another writer
ghost theBuffer *bytes.Buffer
ghost kept array[int,byte]
ghost nkept int
ghost sink io.Writer
ghost indent []byte
ghost streamed array[int,byte]
ghost nstreamed int
ghost writes array[int,Event]
ghost nwrites int
decl wrote(w io.Writer, a array[int,byte], n int) Event

ext (*bytes.Buffer).Write(buf, b) (n, err)
  requires the-buffer: buf == theBuffer
  modifies kept, nkept
  ensures err == nil && n == len(b) && nkept == old(nkept) + len(b)
  ensures forall k int {kept[k]} :: 0 <= k && k < old(nkept) ==> kept[k] == old(kept)[k]
  ensures forall k int {kept[k]} :: old(nkept) <= k && k < nkept ==> kept[k] == b[k - old(nkept)]
ext (*bytes.Buffer).Len(buf) (n)
  requires the-buffer: buf == theBuffer
  ensures n == nkept && n >= 0
ext (*bytes.Buffer).Reset(buf)
  requires the-buffer: buf == theBuffer
  modifies nkept
  ensures nkept == 0
ext (*bytes.Buffer).Bytes(buf) (b)
  requires the-buffer: buf == theBuffer
  ensures len(b) == nkept
  ensures forall k int {b[k]} :: 0 <= k && k < nkept ==> b[k] == kept[k]
invoke io.Writer.Write(w, b) (n, err)
  modifies streamed, nstreamed, writes, nwrites
  ensures w == sink && ref(b) != ref(indent) ==> nstreamed == old(nstreamed) + len(b) && writes == old(writes) && nwrites == old(nwrites)
     && (forall k int {streamed[k]} :: k < old(nstreamed) ==> streamed[k] == old(streamed)[k])
     && (forall k int {streamed[k]} :: old(nstreamed) <= k && k < nstreamed ==> streamed[k] == b[k - old(nstreamed)])
  ensures w == sink && ref(b) == ref(indent) ==> nstreamed == old(nstreamed) && streamed == old(streamed) && writes == old(writes) && nwrites == old(nwrites)
  ensures w != sink ==> nstreamed == old(nstreamed) && streamed == old(streamed) && nwrites == old(nwrites) + 1 && writes == store(old(writes), old(nwrites), wrote(w, elems(b), len(b)))
ext bytes.Cut(s, sep) (before, after, found)
  ensures len(sep) == 1 && found ==> len(before) + 1 + len(after) == len(s) && s[len(before)] == sep[0]
  ensures !found ==> len(before) == len(s) && len(after) == 0
  ensures len(before) >= 0 && len(after) >= 0
  ensures forall k int {before[k]} :: 0 <= k && k < len(before) ==> before[k] == s[k]
  ensures forall k int {after[k]} :: 0 <= k && k < len(after) ==> after[k] == s[len(before) + 1 + k]
  ensures fresh(ref(before)) && fresh(ref(after))

pred writerOk(w *internal.Writer) bool = w != nil && w.lock != nil && w.buffer == theBuffer && w.outWriter == sink && w.streamIndent == indent && ref(internal.newline) != ref(indent) && len(internal.newline) == 1
   && (forall k int {w.teeWriters[k]} :: 0 <= k && k < len(w.teeWriters) ==> w.teeWriters[k] != sink) && nkept >= 0

func internal.NewWriter(outWriter) (w)
  ensures streaming-from-the-start: w != nil && w.lock != nil && w.buffer != nil && w.outWriter == outWriter && w.mode == internal.WriterModeStreamAndBuffer && len(w.teeWriters) == 0
func internal.(*Writer).SetMode(w, mode)
  requires writerOk(w)
  locks
  modifies w.mode
  ensures w.mode == mode
func internal.(*Writer).Len(w) (n)
  requires writerOk(w)
  locks
  ensures n == nkept
func internal.(*Writer).Write(w, b) (n, err)
  requires writerOk(w) && ref(b) != ref(indent)
  locks
  modifies w.indentNext, kept, nkept, streamed, nstreamed, writes, nwrites
  ensures all-written: n == len(b) && err == nil
  ensures kept-in-full: nkept == old(nkept) + len(b) && (forall k int {kept[k]} :: old(nkept) <= k && k < nkept ==> kept[k] == b[k - old(nkept)])
  ensures nothing-forgotten: forall k int {kept[k]} :: 0 <= k && k < old(nkept) ==> kept[k] == old(kept)[k]
  ensures streams-exactly: w.mode == internal.WriterModeStreamAndBuffer ==> nstreamed == old(nstreamed) + len(b) && (forall k int {streamed[k]} :: old(nstreamed) <= k && k < nstreamed ==> streamed[k] == b[k - old(nstreamed)])
  ensures keeps-streamed: forall k int {streamed[k]} :: k < old(nstreamed) ==> streamed[k] == old(streamed)[k]
  ensures silent-otherwise: w.mode != internal.WriterModeStreamAndBuffer ==> nstreamed == old(nstreamed) && streamed == old(streamed) && w.indentNext == old(w.indentNext)
  ensures every-tee: nwrites == old(nwrites) + len(w.teeWriters) && (forall k int {w.teeWriters[k]} :: 0 <= k && k < len(w.teeWriters) ==> writes[old(nwrites) + k] == wrote(w.teeWriters[k], elems(b), len(b)))
  ensures tees-keep: forall k int {writes[k]} :: k < old(nwrites) ==> writes[k] == old(writes)[k]
  cand $i: int :: nwrites == entry(nwrites) + $i
  cand $i: int :: forall k int {w.teeWriters[k]} :: 0 <= k && k < $i ==> writes[entry(nwrites) + k] == wrote(w.teeWriters[k], elems(b), len(b))
  cand forall k int {writes[k]} :: k < entry(nwrites) ==> writes[k] == entry(writes)[k]
  cand forall x *internal.Writer {x.indentNext} :: x != w ==> x.indentNext == old(x.indentNext)
  cand nstreamed == entry(nstreamed)
  cand streamed == entry(streamed)
  cand writes == entry(writes) && nwrites == entry(nwrites)
  cand @r: []byte :: nstreamed == entry(nstreamed) + len(b) - len(@r) && len(@r) <= len(b)
  cand @r: []byte :: forall k int {@r[k]} :: 0 <= k && k < len(@r) ==> @r[k] == b[len(b) - len(@r) + k]
  cand forall k int {streamed[k]} :: entry(nstreamed) <= k && k < nstreamed ==> streamed[k] == b[k - entry(nstreamed)]
  cand forall k int {streamed[k]} :: k < entry(nstreamed) ==> streamed[k] == entry(streamed)[k]
func internal.(*Writer).Truncate(w)
  requires writerOk(w)
  locks
  modifies nkept
  ensures emptied: nkept == 0
func internal.(*Writer).Bytes(w) (out)
  requires writerOk(w)
  locks
  ensures everything: len(out) == nkept && (forall k int {out[k]} :: 0 <= k && k < nkept ==> out[k] == kept[k])
  ensures own-copy: fresh(ref(out)) || cap(out) == 0
func internal.(*Writer).TeeTo(w, writer)
  requires writerOk(w)
  locks
  modifies w.teeWriters, elems(w.teeWriters)
  ensures added: len(w.teeWriters) == old(len(w.teeWriters)) + 1 && w.teeWriters[old(len(w.teeWriters))] == writer
  ensures others-kept: forall k int {w.teeWriters[k]} :: 0 <= k && k < old(len(w.teeWriters)) ==> w.teeWriters[k] == old(w.teeWriters[k])
func internal.(*Writer).ClearTeeWriters(w)
  requires writerOk(w)
  locks
  modifies w.teeWriters
  ensures none-left: len(w.teeWriters) == 0
