package config

fn (APIConfig).Redact(a) (r)
  ensures r.Security.Username == "redacted" && r.Security.Password == "redacted" && r.TLS.Key == "redacted" && r.TLS.Cert == "redacted"
  ensures r.Address == a.Address && r.Origin == a.Origin

// tomlConfig is what the decoder filled in
fn Load(data) (c, e)
  traces toml.Unmarshal as decode
  ghost pos kmap[string, int]
  ghost own arr[string]
  ensures (e == nil) == (c != nil)
  ensures ncalls(decode) == 1 && arg(decode, 0, 0) == data
  ensures res(decode, 0, 0) != nil ==> e != nil
  at exit assert res(decode, 0, 0) == nil && e != nil ==> len(tomlConfig.Database) != 1 || len(tomlConfig.Dist) != 1
  at exit assert e == nil ==> len(tomlConfig.Database) == 1 && len(tomlConfig.Dist) == 1
  at exit assert e == nil ==> c.Main.Duration == tomlConfig.Main.Duration.Duration && c.Main.Plugins == tomlConfig.Main.Plugins
  at exit assert e == nil ==> c.API.Address == tomlConfig.API.Address && c.API.Origin == tomlConfig.API.Origin && c.API.TLS.Key == tomlConfig.API.TLS.Key && c.API.TLS.Cert == tomlConfig.API.TLS.Cert && c.API.Security.Username == tomlConfig.API.Security.Username && c.API.Security.Password == tomlConfig.API.Security.Password
  at exit assert e == nil ==> has(tomlConfig.Database, c.Database.Kind) && c.Database.Config == tomlConfig.Database[c.Database.Kind]
  at exit assert e == nil ==> has(tomlConfig.Dist, c.Dist.Kind) && c.Dist.Config == tomlConfig.Dist[c.Dist.Kind]
  // listeners: pos maps each kind to where its entries start; every entry of every kind is there
  at exit assert e == nil ==> forall k string, j int :: {has(tomlConfig.Listeners, k), idx(c.Listeners, j)} has(tomlConfig.Listeners, k) && pos[k] <= j && j < pos[k] + len(tomlConfig.Listeners[k]) ==> 0 <= j && j < len(c.Listeners) && c.Listeners[j].Kind == k && c.Listeners[j].Config == tomlConfig.Listeners[k][j - pos[k]]
  // two kinds never share an entry
  at exit assert e == nil ==> forall k string, l string :: {pos[k], pos[l]} has(tomlConfig.Listeners, k) && has(tomlConfig.Listeners, l) && k != l ==> pos[k] + len(tomlConfig.Listeners[k]) <= pos[l] || pos[l] + len(tomlConfig.Listeners[l]) <= pos[k]
  // and every entry of the list is one of them
  at exit assert e == nil ==> forall j int :: {own[j]} 0 <= j && j < len(c.Listeners) ==> has(tomlConfig.Listeners, own[j]) && pos[own[j]] <= j && j < pos[own[j]] + len(tomlConfig.Listeners[own[j]])
  loop 0
    invariant forall k string :: {visited(k)} !visited(k)
  loop 1
    invariant forall k string :: {visited(k)} !visited(k)
    invariant conf.Database == pre(conf.Database)
  at loop 2 set pos[kind] := len(conf.Listeners)
  at loop 3 set own[len(conf.Listeners)] := kind
  loop 2
    invariant cap(conf.Listeners) == 0 || fresh(conf.Listeners)
    invariant forall k string, j int :: {visited(k), idx(conf.Listeners, j)} visited(k) && pos[k] <= j && j < pos[k] + len(tomlConfig.Listeners[k]) ==> 0 <= j && j < len(conf.Listeners) && conf.Listeners[j].Kind == k && conf.Listeners[j].Config == tomlConfig.Listeners[k][j - pos[k]]
    invariant forall k string :: {visited(k)} visited(k) ==> 0 <= pos[k] && pos[k] + len(tomlConfig.Listeners[k]) <= len(conf.Listeners)
    invariant forall k string, l string :: {pos[k], pos[l]} visited(k) && visited(l) && k != l ==> pos[k] + len(tomlConfig.Listeners[k]) <= pos[l] || pos[l] + len(tomlConfig.Listeners[l]) <= pos[k]
    invariant forall j int :: {own[j]} 0 <= j && j < len(conf.Listeners) ==> visited(own[j]) && pos[own[j]] <= j && j < pos[own[j]] + len(tomlConfig.Listeners[own[j]])
  loop 3
    invariant cap(conf.Listeners) == 0 || fresh(conf.Listeners)
    invariant pos[kind] == pre(len(conf.Listeners)) && len(conf.Listeners) == pos[kind] + $i
    invariant forall j int :: {idx(conf.Listeners, j)} pos[kind] <= j && j < len(conf.Listeners) ==> conf.Listeners[j].Kind == kind && conf.Listeners[j].Config == configs[j - pos[kind]]
    invariant forall j int :: {idx(conf.Listeners, j)} 0 <= j && j < pos[kind] ==> conf.Listeners[j] == pre(conf.Listeners[j])
    invariant forall j int :: {own[j]} (0 <= j && j < pos[kind] ==> own[j] == pre(own[j])) && (pos[kind] <= j && j < len(conf.Listeners) ==> own[j] == kind)
