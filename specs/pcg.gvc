package internal/pcg

spec incOf(inc mathint) mathint = u64(2 * inc + 1)
// the output permutation XSH-RR: the xorshift of the state rotated right by its top five bits
spec xsh(o mathint) mathint = u32(bits("shr", "u64", bits("xor", "u64", bits("shr", "u64", o, 18), o), 27))
spec rot(o mathint) mathint = u32(bits("shr", "u64", o, 59))
spec rotr32(x mathint, k mathint) mathint = bits("or", "u32", bits("shr", "u32", x, k), bits("shl", "u32", x, bits("and", "u32", u32(0 - k), 31)))
spec stateOf(state mathint, inc mathint) mathint = u64((incOf(inc) + state) * 6364136223846793005 + incOf(inc))

fn New(state, inc) (p)
  ensures p.inc == incOf(inc)
  ensures p.state == u64((incOf(inc) + state) * 6364136223846793005 + incOf(inc))

fn (*PCG).Uint32(p) (r)
  modifies *p
  ensures old(p.inc) != 0 ==> p.inc == old(p.inc) && p.state == u64(old(p.state) * 6364136223846793005 + p.inc)
  ensures old(p.inc) == 0 ==> p.inc == 1 && p.state == u64(u64(6364136223846793005 + 1) * 6364136223846793005 + 1)
  ensures old(p.inc) != 0 ==> r == rotr32(xsh(old(p.state)), rot(old(p.state)))
  ensures old(p.inc) == 0 ==> exists s mathint :: s == stateOf(0, 0) && r == rotr32(xsh(s), rot(s))

fn verifZero() (a, b, p, q)
  ensures a == b && p == q
