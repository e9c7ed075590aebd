package std

// ---- errors ----
extern github.com/zeebo/errs.(*Class).New(c, format, args) (err)
  ensures err != nil
extern github.com/zeebo/errs.(*Class).Wrap(c, e) (err)
  ensures (err == nil) == (e == nil)
extern github.com/zeebo/errs.New(format, args) (err)
  ensures err != nil
extern github.com/zeebo/errs.Wrap(e) (err)
  ensures (err == nil) == (e == nil)
extern errors.New(s) (err)
  ensures err != nil
extern fmt.Errorf(format, args) (err)
  ensures err != nil
extern fmt.Sprintf(format, args) (s)
extern fmt.Sprint(args) (s)

// ---- encoding/binary ----
spec be16(a arr[byte], p int) mathint = a[p]*256 + a[p+1]
spec be32(a arr[byte], p int) mathint = a[p]*16777216 + a[p+1]*65536 + a[p+2]*256 + a[p+3]
spec be64(a arr[byte], p int) mathint = a[p]*72057594037927936 + a[p+1]*281474976710656 + a[p+2]*1099511627776 + a[p+3]*4294967296 + a[p+4]*16777216 + a[p+5]*65536 + a[p+6]*256 + a[p+7]
spec sbe16(b []byte, p int) mathint = b[p]*256 + b[p+1]
spec sbe32(b []byte, p int) mathint = b[p]*16777216 + b[p+1]*65536 + b[p+2]*256 + b[p+3]
spec sbe64(b []byte, p int) mathint = b[p]*72057594037927936 + b[p+1]*281474976710656 + b[p+2]*1099511627776 + b[p+3]*4294967296 + b[p+4]*16777216 + b[p+5]*65536 + b[p+6]*256 + b[p+7]

extern encoding/binary.(bigEndian).PutUint64(e, b, v)
  requires len(b) >= 8
  modifies elems(b)
  ensures sbe64(b, 0) == v
  ensures forall k int :: {elems(b)[k]} k < off(b) || k >= off(b) + 8 ==> elems(b)[k] == old(elems(b)[k])
extern encoding/binary.(bigEndian).PutUint32(e, b, v)
  requires len(b) >= 4
  modifies elems(b)
  ensures sbe32(b, 0) == v
  ensures forall k int :: {elems(b)[k]} k < off(b) || k >= off(b) + 4 ==> elems(b)[k] == old(elems(b)[k])
extern encoding/binary.(bigEndian).PutUint16(e, b, v)
  requires len(b) >= 2
  modifies elems(b)
  ensures sbe16(b, 0) == v
  ensures forall k int :: {elems(b)[k]} k < off(b) || k >= off(b) + 2 ==> elems(b)[k] == old(elems(b)[k])
extern encoding/binary.(bigEndian).Uint64(e, b) (r)
  requires len(b) >= 8
  ensures r == sbe64(b, 0)
extern encoding/binary.(bigEndian).Uint32(e, b) (r)
  requires len(b) >= 4
  ensures r == sbe32(b, 0)
extern encoding/binary.(bigEndian).Uint16(e, b) (r)
  requires len(b) >= 2
  ensures r == sbe16(b, 0)
spec le64(a arr[byte], p int) mathint = a[p] + a[p+1]*256 + a[p+2]*65536 + a[p+3]*16777216 + a[p+4]*4294967296 + a[p+5]*1099511627776 + a[p+6]*281474976710656 + a[p+7]*72057594037927936
extern encoding/binary.(littleEndian).PutUint64(e, b, v)
  requires len(b) >= 8
  modifies elems(b)
  ensures le64(elems(b), off(b)) == v
  ensures forall k int :: {elems(b)[k]} k < off(b) || k >= off(b) + 8 ==> elems(b)[k] == old(elems(b)[k])
extern encoding/binary.(littleEndian).Uint64(e, b) (r)
  requires len(b) >= 8
  ensures r == b[0] + b[1]*256 + b[2]*65536 + b[3]*16777216 + b[4]*4294967296 + b[5]*1099511627776 + b[6]*281474976710656 + b[7]*72057594037927936
extern encoding/binary.(littleEndian).Uint32(e, b) (r)
  requires len(b) >= 4
  ensures r == b[0] + b[1]*256 + b[2]*65536 + b[3]*16777216
extern encoding/binary.(littleEndian).Uint16(e, b) (r)
  requires len(b) >= 2
  ensures r == b[0] + b[1]*256

// ---- hash/crc32 ----
ufunc crcUpd(crc uint32, tab *crc32.Table, s string) uint32
extern hash/crc32.Update(crc, tab, p) (r)
  ensures r == crcUpd(crc, tab, str(p))

// ---- strconv ----
ufunc itoa(n mathint) string
axiom itoaBytes(n mathint, k int)
  requires 0 <= k && k < len(itoa(n))
  ensures itoa(n)[k] == '-' || ('0' <= itoa(n)[k] && itoa(n)[k] <= '9')
  trigger itoa(n)[k]
axiom itoaLen(n mathint)
  ensures 1 <= len(itoa(n)) && len(itoa(n)) <= 20
  trigger itoa(n)
extern strconv.AppendInt(dst, i, base) (r)
  requires base == 10
  modifies elems(dst)
  ensures fresh(r) || arrof(r) == arrof(dst)
  ensures str(r) == old(str(dst)) + itoa(i)

// ---- bytes.Split, strconv.ParseFloat: the pieces and values are uninterpreted functions of the text ----
ufunc nfields(s string, sep string) int
ufunc field(s string, sep string, i int) string
ufunc floatOK(s string) bool
ufunc floatOf(s string) float64
extern bytes.Split(s, sep) (r)
  ensures len(r) == nfields(str(s), str(sep)) && len(r) >= 0
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> str(r[i]) == field(str(s), str(sep), i)
extern strconv.ParseFloat(s, bitSize) (f, err)
  ensures bitSize == 64 ==> (err == nil) == floatOK(s) && (err == nil ==> f == floatOf(s))
extern bufio.NewScanner(r) (s)
  ensures s != nil
extern bufio.(*Scanner).Scan(s) (ok)
extern bufio.(*Scanner).Bytes(s) (b)
extern bufio.(*Scanner).Text(s) (b)
extern bufio.(*Scanner).Err(s) (err)
extern context.WithCancel(parent) (ctx, cancel)
  ensures ctx != nil && cancel != nil
extern context.WithTimeout(parent, d) (ctx, cancel)
  ensures ctx != nil && cancel != nil
extern net.(Conn).RemoteAddr(c) (a)
  ensures a != nil

// ---- system calls: mmap (9) and munmap (11) on linux/amd64 ----
extern syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6) (addr, aux, ec)
  modifies mine
  ensures trap == 9 && ec == 0 ==> addr != 0 && a2 <= MaxLen && old(mine[addr]) == 0 && mine == stored(old(mine), addr, a2) && fresh(mapped(addr, a2))
  ensures trap != 9 || ec != 0 ==> mine == old(mine)
extern syscall.Syscall(trap, a1, a2, a3) (addr, aux, ec)
  requires trap == 11 ==> mine[a1] == a2
  modifies mine
  ensures trap == 11 ==> mine == stored(old(mine), a1, 0)
  ensures trap != 11 ==> mine == old(mine)
extern os.(*File).Stat(f) (fi, err)
  ensures err == nil ==> fi != nil
extern os.OpenFile(name, flag, perm) (f, err)
  ensures err == nil ==> f != nil
extern os.Open(name) (f, err)
  ensures err == nil ==> f != nil

extern time.(Duration).Nanoseconds(d) (r)
  ensures r == d
