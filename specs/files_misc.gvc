package database/files

fn fastMod(n, m) (r)
  requires 0 < m && m < 0x80000000
  ensures 0 <= r && r < m
  ensures r * 4294967296 <= n * m && n * m < (r + 1) * 4294967296
