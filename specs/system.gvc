package database/files/internal/system

// the mappings that belong to the running goroutine: address -> length, 0 for none
ghostvar mine kmap[uintptr, mathint]

// the memory of a mapping: the same bytes whenever it is looked at through the same address and length
ufunc mapped(data uintptr, n int) []byte
axiom mappedIs(d uintptr, n int)
  requires 0 <= n
  ensures len(mapped(d, n)) == n && cap(mapped(d, n)) == n && off(mapped(d, n)) == 0
  trigger mapped(d, n)

fn Mmap(fd, length, prot, flags) (data, err)
  requires length > 0
  modifies mine
  ensures err == nil ==> data != 0 && length <= MaxLen && old(mine[data]) == 0 && mine == stored(old(mine), data, length) && fresh(mapped(data, length))
  ensures err != nil ==> mine == old(mine)

fn Munmap(data, length) (err)
  requires 0 < length && mine[data] == length
  modifies mine
  ensures mine == stored(old(mine), data, 0)

// little-endian header fields of a linux dirent: inode at 0 (8 bytes), record length at 16 (2 bytes), name at 19
spec recLen(b []byte) mathint = b[16] + 256 * b[17]
pred inoZero(b []byte) = b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 0 && b[5] == 0 && b[6] == 0 && b[7] == 0

fn NextDirent(buf) (rest, name, ok)
  opts strfacts
  ensures len(buf) > 0 ==> len(rest) < len(buf)
  ensures len(rest) > 0 ==> len(buf) >= 18 && 0 < recLen(buf) && recLen(buf) <= len(buf) && len(rest) == len(buf) - recLen(buf) && arrof(rest) == arrof(buf) && off(rest) == off(buf) + recLen(buf)
  ensures ok == (len(buf) >= 18 && 19 <= recLen(buf) && recLen(buf) <= len(buf) && !inoZero(buf) && str(name) != "." && str(name) != "..")
  ensures ok ==> arrof(name) == arrof(buf) && off(name) == off(buf) + 19
  ensures ok ==> len(name) <= recLen(buf) - 19 && (forall k int :: {name[k]} 0 <= k && k < len(name) ==> name[k] != 0) && (len(name) == recLen(buf) - 19 || buf[19 + len(name)] == 0)
  loop 0
    invariant forall k int :: {name[k]} 0 <= k && k < $i ==> name[k] != 0
    invariant name == pre(name)

fn Open(path) (fd, err)
  modifies mine
  ensures mine == old(mine)
  ensures len(path) == 0 || path[len(path)-1] != 0 ==> err != nil
