package dist

// the interfaces of the distribution packages, as their users rely on them
extern github.com/vivint/rothko/dist.(Params).New(p) (d, err)
  ensures err == nil ==> d != nil
extern github.com/vivint/rothko/dist.(Params).Unmarshal(p, data) (d, err)
  ensures err == nil ==> d != nil

// a maker of distribution parameters gives either parameters or an error
extern github.com/vivint/rothko/registry.(DistributionMaker).New(m, ctx, config) (p, err)
  ensures err == nil ==> p != nil
