package database/files

fn slice(data, length) (r)
  trusted the conversion of an address to a slice is unsafe by nature; the slice is taken to be the memory of the mapping
  requires 0 <= length
  ensures r == mapped(data, length)

// a handle to a mapped file: the metadata slot and cap record slots fit in it
pred wfFile(f file) = 24 <= f.size && 1 <= f.cap && 0 <= f.len && f.len <= MaxLen && (f.cap + 1) * f.size <= f.len
spec fmem(f file) []byte = mapped(f.data, f.len)
opaque slotAt(f file, n int) []byte = fmem(f)[(n + 1) * f.size : (n + 1) * f.size + f.size]

lemma mulMono(a mathint, b mathint, c mathint)
  requires a <= b && 0 <= c
  ensures a * c <= b * c

fn (file).slice(f) (r)
  requires 0 <= f.len
  ensures r == fmem(f)
fn (file).Size(f) (r)
  ensures r == f.size
fn (file).Capacity(f) (r)
  ensures r == f.cap
fn (file).offset(f, n) (r)
  requires wfFile(f) && 0 <= n && n < f.cap
  ensures r == (n + 1) * f.size && f.size <= r && r + f.size <= f.len
  at entry use mulMono(n + 2, f.cap + 1, f.size)
  at entry use mulMono(1, n + 1, f.size)

fn (file).HasRecord(f, ctx, n) (ok)
  opts reveal=slotAt
  requires wfFile(f)
  ensures ok == (0 <= n && n < f.cap && slotAt(f, n)[0] != 0)

fn (file).Record(f, ctx, n) (out, err)
  opts reveal=slotAt
  requires wfFile(f)
  ensures (err == nil) == (0 <= n && n < f.cap && validRec(slotAt(f, n)))
  ensures err == nil ==> out.version == 1 && out.kind == i8(slotAt(f, n)[1]) && out.start == i64(sbe64(slotAt(f, n), 2)) && out.end == i64(sbe64(slotAt(f, n), 10)) && out.size == rsize(slotAt(f, n))
  ensures err == nil ==> arrof(out.data) == arrof(fmem(f)) && off(out.data) == (n + 1) * f.size + 24 && len(out.data) == out.size && 24 + out.size <= f.size

fn (file).SetRecord(f, ctx, n, rec) (err)
  opts reveal=slotAt
  requires wfFile(f)
  requires rec.size <= len(rec.data)
  requires rec.size == 0 || arrof(rec.data) != arrof(fmem(f))
  modifies elems(fmem(f))
  ensures (err == nil) == (0 <= n && n < f.cap && 24 + rec.size <= f.size)
  ensures err != nil ==> elems(fmem(f)) == old(elems(fmem(f)))
  ensures err == nil ==> i8(slotAt(f, n)[0]) == rec.version && i8(slotAt(f, n)[1]) == rec.kind && i64(sbe64(slotAt(f, n), 2)) == rec.start && i64(sbe64(slotAt(f, n), 10)) == rec.end && rsize(slotAt(f, n)) == rec.size
  ensures err == nil && rec.version == 1 ==> validRec(slotAt(f, n))
  ensures err == nil ==> str(slotAt(f, n)[24:24+rec.size]) == old(str(rec.data[0:rec.size]))
  ensures forall k int :: {elems(fmem(f))[k]} k < (n + 1) * f.size || k >= (n + 2) * f.size ==> elems(fmem(f))[k] == old(elems(fmem(f))[k])

fn writeMetadata(buf, m) (err)
  modifies elems(buf)
  ensures (err == nil) == (24 + meta.q5(m) <= len(buf))
  ensures err == nil ==> rsize(buf) == meta.q5(m) && meta.metaEnc(elems(buf), off(buf) + 24, m)
  ghost wrote arr[byte] = elems(buf)
  at after Metadata.MarshalTo set wrote := elems(buf)
  at exit use meta.metaFrame(wrote, elems(buf), off(buf) + 24, m)
  ensures err != nil ==> elems(buf) == old(elems(buf))
  ensures err == nil ==> validRec(buf) && buf[0] == 1
  ensures forall k int :: {elems(buf)[k]} k < off(buf) || k >= off(buf) + len(buf) ==> elems(buf)[k] == old(elems(buf)[k])

fn readMetadata(buf) (m, err)
  ensures err == nil ==> validRec(buf)
  ensures validRec(buf) && meta.encoded(buf[24:24+rsize(buf)]) ==> err == nil && meta.isWanted(m)

// the metadata record of a file: what SetMetadata stores and Metadata reads back
pred metaIs(f file, m meta.Metadata) = validRec(fmem(f)[0:f.size]) && rsize(fmem(f)[0:f.size]) == meta.q5(m) && meta.metaEnc(elems(fmem(f)), off(fmem(f)) + 24, m)
pred metaEncoded(f file) = validRec(fmem(f)[0:f.size]) && meta.encoded(fmem(f)[24:24+rsize(fmem(f)[0:f.size])])

fn (file).Metadata(f, ctx) (m, err)
  requires wfFile(f)
  ensures err == nil ==> validRec(fmem(f)[0:f.size])
  ensures metaEncoded(f) ==> err == nil && meta.isWanted(m)

fn (file).SetMetadata(f, ctx, m) (err)
  requires wfFile(f)
  modifies elems(fmem(f))
  ensures (err == nil) == (24 + meta.q5(m) <= f.size)
  ensures err == nil ==> metaIs(f, m)
  ensures err != nil ==> elems(fmem(f)) == old(elems(fmem(f)))
  ensures forall k int :: {elems(fmem(f))[k]} k < 0 || k >= f.size ==> elems(fmem(f))[k] == old(elems(fmem(f))[k])

// setting the metadata and reading it (verifMetadata is verification code, in the overlay)
fn verifMetadata(f, ctx, m) (out, err)
  requires wfFile(f)
  modifies elems(fmem(f))
  at entry set wanted := m
  ensures (err == nil) == (24 + meta.q5(m) <= f.size)
  ensures err == nil ==> out == m

// whether slot n holds a record
spec occ(f file, n int) bool = slotAt(f, n)[0] != 0

fn getHeadPointer(ctx, f) (n, err)
  requires wfFile(f)
  loop 0
    invariant 0 <= head && head < f.cap && (delta == -1) == orig_has && (delta == -1 || delta == 1)
    invariant occ(f, head) == orig_has
    decreases ite(orig_has, head, f.cap - head)
  ensures err == nil ==> -1 <= n && n < f.cap
  ensures err == nil ==> (n == -1 || !occ(f, n)) && (n == f.cap - 1 || occ(f, n + 1))

// the path each mapping was made for
ghostvar openedAs kmap[uintptr, string]
// a handle the running goroutine owns
pred owned(f file) = wfFile(f) && f.data != 0 && mine[f.data] == f.len
pred noneLost() = forall d uintptr :: {mine[d]} {openedAs[d]} old(mine[d]) > 0 ==> mine[d] == old(mine[d]) && openedAs[d] == old(openedAs[d])

fn openFile(ctx, path) (f, err)
  traces os.OpenFile as open, File.Close as closefh
  modifies mine, openedAs
  at after Mmap set openedAs[$r0] := ite($r1 == nil, path, openedAs[$r0])
  ensures ncalls(open) == 1 && arg(open, 0, 0) == path
  ensures err != nil ==> mine == old(mine) && noneLost()
  ensures err == nil ==> old(mine[f.data]) == 0 && owned(f) && openedAs[f.data] == path && f.cap == f.len / f.size - 1
  ensures err == nil ==> mine == stored(old(mine), f.data, f.len) && noneLost()

fn createFile(ctx, path, size, cap) (f, err)
  modifies mine, openedAs
  at after Mmap set openedAs[$r0] := ite($r1 == nil, path, openedAs[$r0])
  ensures err != nil ==> mine == old(mine) && noneLost()
  ensures err == nil ==> old(mine[f.data]) == 0 && owned(f) && openedAs[f.data] == path && f.cap == cap && f.size == size && f.len == size * (cap + 1)
  ensures err == nil ==> mine == stored(old(mine), f.data, f.len) && noneLost()

fn (file).Close(f) (err)
  requires f.data == 0 || 0 < f.len && mine[f.data] == f.len
  modifies mine
  ensures f.data == 0 ==> mine == old(mine)
  ensures f.data != 0 ==> mine == stored(old(mine), f.data, 0)

// the files kept are mappings nobody is using, each made for the path it is kept under
monitor (fileCache).mu
  guards toks, allmaps(this.toks), ch.tok, ch.order, ch.pcg.*, map(this.ch.handles), allelems(this.ch.order)
  invariant wf: this.ch != nil && wfCache(this.ch) && this.toks != nil
  invariant kept: forall t cacheToken :: {has(this.ch.handles, t)} inCache(this.ch, t) ==> wfFile(fileAt(this.ch, t)) && fileAt(this.ch, t).data != 0 && mine[fileAt(this.ch, t).data] == 0
  invariant once: forall t cacheToken, u cacheToken :: {has(this.ch.handles, t), has(this.ch.handles, u)} inCache(this.ch, t) && inCache(this.ch, u) && fileAt(this.ch, t).data == fileAt(this.ch, u).data ==> t == u
  invariant path: forall p string :: {has(this.toks, p)} has(this.toks, p) && inCache(this.ch, this.toks[p]) ==> openedAs[fileAt(this.ch, this.toks[p]).data] == p
  invariant known: forall p string :: {has(this.toks, p)} has(this.toks, p) ==> this.toks[p] <= this.ch.tok

fn newFileCache(opts) (c)
  requires 0 <= opts.Handles && opts.Handles < 0x80000000
  ensures fresh(c) && c.opts == opts && c.ch != nil && wfCache(c.ch) && c.toks != nil && fresh(c.toks)
  ensures forall t cacheToken :: {has(c.ch.handles, t)} !inCache(c.ch, t)

fn (*fileCache).releaseFile(fch, path, f)
  requires owned(f) && openedAs[f.data] == path
  modifies fch.toks, allmaps(fch.toks), fch.ch.tok, fch.ch.order, fch.ch.pcg.*, map(fch.ch.handles), allelems(fch.ch.order), mine
  at after lock assume fch.ch.tok < 0x7fffffffffffffff
  at before unlock set mine[f.data] := 0
  at before unlock set mine[ev.data] := ite(ok, ev.len, mine[ev.data])
  ensures mine == stored(old(mine), f.data, 0)

fn (*fileCache).acquireFile(fch, ctx, path, must) (f, err)
  modifies fch.toks, allmaps(fch.toks), fch.ch.tok, fch.ch.order, fch.ch.pcg.*, map(fch.ch.handles), allelems(fch.ch.order), mine, openedAs
  traces openFile as open, createFile as create
  at before unlock set mine[f.data] := ite(ok, f.len, mine[f.data])
  ensures ncalls(open) + ncalls(create) <= 1
  ensures ncalls(create) > 0 ==> !must && arg(create, 1, 0) == path && arg(create, 2, 0) == fch.opts.Size && arg(create, 3, 0) == fch.opts.Cap
  ensures ncalls(open) > 0 ==> must
  ensures err != nil ==> mine == old(mine) && noneLost()
  ensures err == nil ==> old(mine[f.data]) == 0 && owned(f) && openedAs[f.data] == path
  ensures err == nil ==> mine == stored(old(mine), f.data, f.len) && noneLost()

fn (*fileCache).evictFile(fch, path)
  modifies fch.toks, allmaps(fch.toks), fch.ch.tok, fch.ch.order, fch.ch.pcg.*, map(fch.ch.handles), allelems(fch.ch.order), mine
  at before unlock assert gone: !has(fch.toks, path)
  at before unlock set mine[f.data] := ite(ok, f.len, mine[f.data])
  ensures mine == old(mine)

fn (*fileCache).Close(fch)
  modifies fch.toks, allmaps(fch.toks), fch.ch.tok, fch.ch.order, fch.ch.pcg.*, map(fch.ch.handles), allelems(fch.ch.order), mine
  at before file.Close set mine[f.data] := f.len
  loop 0
    invariant wfCache(fch.ch) && fch.ch.handles == locked(fch.ch.handles) && arrof(fch.ch.order) == locked(arrof(fch.ch.order))
    invariant forall t cacheToken :: {has(fch.ch.handles, t)} inCache(fch.ch, t) ==> wfFile(fileAt(fch.ch, t)) && fileAt(fch.ch, t).data != 0 && mine[fileAt(fch.ch, t).data] == 0
    invariant forall t cacheToken, u cacheToken :: {has(fch.ch.handles, t), has(fch.ch.handles, u)} inCache(fch.ch, t) && inCache(fch.ch, u) && fileAt(fch.ch, t).data == fileAt(fch.ch, u).data ==> t == u
    invariant mine == old(mine)
  at before unlock assert none: forall t cacheToken :: {has(fch.ch.handles, t)} !inCache(fch.ch, t)
  ensures mine == old(mine)
