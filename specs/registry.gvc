package registry

monitor (Registry).mu
  guards listeners, databases, distributions, map(this.listeners), map(this.databases), map(this.distributions)
  invariant this.listeners != nil ==> forall k string :: {has(this.listeners, k)} has(this.listeners, k) ==> this.listeners[k] != nil
  invariant this.databases != nil ==> forall k string :: {has(this.databases, k)} has(this.databases, k) ==> this.databases[k] != nil
  invariant this.distributions != nil ==> forall k string :: {has(this.distributions, k)} has(this.distributions, k) ==> this.distributions[k] != nil

fn (*Registry).RegisterListener(r, name, maker)
  requires maker != nil
  modifies r.listeners, allmaps(r.listeners)
  ensures r.listeners != nil && has(r.listeners, name) && r.listeners[name] == maker
  ensures forall k string :: k != name ==> has(r.listeners, k) == locked(r.listeners != nil && has(r.listeners, k))
  ensures forall k string :: k != name && has(r.listeners, k) ==> r.listeners[k] == locked(r.listeners[k])

fn (*Registry).RegisterDatabase(r, name, maker)
  requires maker != nil
  modifies r.databases, allmaps(r.databases)
  ensures r.databases != nil && has(r.databases, name) && r.databases[name] == maker
  ensures forall k string :: k != name ==> has(r.databases, k) == locked(r.databases != nil && has(r.databases, k))
  ensures forall k string :: k != name && has(r.databases, k) ==> r.databases[k] == locked(r.databases[k])

fn (*Registry).RegisterDistribution(r, name, maker)
  requires maker != nil
  modifies r.distributions, allmaps(r.distributions)
  ensures r.distributions != nil && has(r.distributions, name) && r.distributions[name] == maker
  ensures forall k string :: k != name ==> has(r.distributions, k) == locked(r.distributions != nil && has(r.distributions, k))
  ensures forall k string :: k != name && has(r.distributions, k) ==> r.distributions[k] == locked(r.distributions[k])

fn (*Registry).NewListener(r, ctx, name, config) (l, err)
  traces ListenerMaker.New as make
  ensures locked(r.listeners != nil && has(r.listeners, name)) ==> ncalls(make) == 1 && recvof(make, 0) == locked(r.listeners[name]) && arg(make, 0, 0) == ctx && arg(make, 1, 0) == config && l == res(make, 0, 0) && err == res(make, 1, 0)
  ensures !locked(r.listeners != nil && has(r.listeners, name)) ==> ncalls(make) == 0 && l == nil && err != nil

fn (*Registry).NewDatabase(r, ctx, name, config) (l, err)
  traces DatabaseMaker.New as make
  ensures locked(r.databases != nil && has(r.databases, name)) ==> ncalls(make) == 1 && recvof(make, 0) == locked(r.databases[name]) && arg(make, 0, 0) == ctx && arg(make, 1, 0) == config && l == res(make, 0, 0) && err == res(make, 1, 0)
  ensures !locked(r.databases != nil && has(r.databases, name)) ==> ncalls(make) == 0 && l == nil && err != nil

fn (*Registry).NewDistribution(r, ctx, name, config) (l, err)
  traces DistributionMaker.New as make
  ensures err == nil ==> l != nil
  ensures locked(r.distributions != nil && has(r.distributions, name)) ==> ncalls(make) == 1 && recvof(make, 0) == locked(r.distributions[name]) && arg(make, 0, 0) == ctx && arg(make, 1, 0) == config && l == res(make, 0, 0) && err == res(make, 1, 0)
  ensures !locked(r.distributions != nil && has(r.distributions, name)) ==> ncalls(make) == 0 && l == nil && err != nil

fn RegisterListener(name, maker)
  requires maker != nil
  modifies Default.listeners, allmaps(Default.listeners)
  ensures Default.listeners != nil && has(Default.listeners, name) && Default.listeners[name] == maker

fn RegisterDatabase(name, maker)
  requires maker != nil
  modifies Default.databases, allmaps(Default.databases)
  ensures Default.databases != nil && has(Default.databases, name) && Default.databases[name] == maker

fn RegisterDistribution(name, maker)
  requires maker != nil
  modifies Default.distributions, allmaps(Default.distributions)
  ensures Default.distributions != nil && has(Default.distributions, name) && Default.distributions[name] == maker

fn NewListener(ctx, name, config) (l, err)
  traces Registry.NewListener as get
  ensures ncalls(get) == 1 && recvof(get, 0) == &Default && arg(get, 0, 0) == ctx && arg(get, 1, 0) == name && arg(get, 2, 0) == config && l == res(get, 0, 0) && err == res(get, 1, 0)

fn NewDatabase(ctx, name, config) (l, err)
  traces Registry.NewDatabase as get
  ensures ncalls(get) == 1 && recvof(get, 0) == &Default && arg(get, 0, 0) == ctx && arg(get, 1, 0) == name && arg(get, 2, 0) == config && l == res(get, 0, 0) && err == res(get, 1, 0)

fn NewDistribution(ctx, name, config) (l, err)
  traces Registry.NewDistribution as get
  ensures err == nil ==> l != nil
  ensures ncalls(get) == 1 && recvof(get, 0) == &Default && arg(get, 0, 0) == ctx && arg(get, 1, 0) == name && arg(get, 2, 0) == config && l == res(get, 0, 0) && err == res(get, 1, 0)
