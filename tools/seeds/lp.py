O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
D = "hadar/optimizer/lp/domain.py"
SEEDS = [
 dict(id="b01", property="C02",
  needs="two networks where the same pair of node names is linked in both",
  breaks="link imports are collected without the network, so the import of one network is lost when another network links nodes of the same names: energy disappears",
  edits=[(O, "                (t, name_network, link.src, link.dest)\n            ] = link.variable", "                (t, link.src, link.dest)\n            ] = (name_network, link.variable)"),
         (O, "for (t, net, src, dest), var in self.importations.items():", "for (t, src, dest), (net, var) in self.importations.items():")],
  demo='''
import hadar as hd
study = (hd.Study(horizon=1)
   .network("elec").node("a").production(name="p", cost=1, quantity=10).node("b").consumption(name="c", cost=1000, quantity=10)
   .link(src="a", dest="b", cost=1, quantity=10)
   .network("gas").node("a").production(name="p", cost=1, quantity=10).node("b").consumption(name="c", cost=1000, quantity=10)
   .link(src="a", dest="b", cost=1, quantity=10).build())
r = hd.LPOptimizer().solve(study)
for n in ("elec", "gas"):
    got = r.networks[n].nodes["b"].consumptions[0].quantity[0, 0]
    assert abs(got - 10) < 1e-6, (n, got)
'''),
 dict(id="b02", property="C01",
  needs="a converter whose cost varies between scenarios",
  breaks="every scenario is charged the converter cost of the first scenario",
  edits=[(M, "cost=v.cost[scn, t],\n            max=", "cost=v.cost[0, t],\n            max=")],
  demo='''
import hadar as hd
study = (hd.Study(horizon=1, nb_scn=2)
   .network("gas").node("g").production(name="p", cost=1, quantity=100)
   .to_converter(name="conv", ratio=1)
   .network("elec").node("e").consumption(name="c", cost=10000, quantity=10).production(name="oil", cost=50, quantity=100)
   .converter(name="conv", to_network="elec", to_node="e", max=100, cost=[[1], [200]]).build())
r = hd.LPOptimizer().solve(study)
oil = r.networks["elec"].nodes["e"].productions[0].quantity
assert abs(oil[0, 0]) < 1e-6 and abs(oil[1, 0] - 10) < 1e-6, oil
'''),
 dict(id="b03", property="C05",
  needs="a storage whose outflow limit differs from one step to the next and a scenario where the limit binds",
  breaks="a storage can withdraw more than the limit declared for the step",
  edits=[(M, "float(s.flow_out[scn, t])", "float(s.flow_out[scn, 0])")],
  demo='''
import hadar as hd
study = (hd.Study(horizon=2)
   .network().node("a").consumption(name="c", cost=1000, quantity=[0, 10])
   .storage(name="s", capacity=100, flow_in=100, flow_out=[10, 1], init_capacity=50, eff=1).build())
r = hd.LPOptimizer().solve(study)
out = r.networks["default"].nodes["a"].storages[0].flow_out
assert out[0, 1] <= 1 + 1e-6, out
'''),
 dict(id="b04", property="C04",
  needs="a converter source whose ratio varies from scenario to scenario",
  breaks="every scenario converts with the ratio of the first scenario",
  edits=[(M, "k: v[scn, t] for k, v", "k: v[0, t] for k, v")],
  demo='''
import hadar as hd
study = (hd.Study(horizon=1, nb_scn=2)
   .network("gas").node("g").production(name="p", cost=1, quantity=100)
   .to_converter(name="conv", ratio=[[1], [0.5]])
   .network("elec").node("e").consumption(name="c", cost=10000, quantity=10)
   .converter(name="conv", to_network="elec", to_node="e", max=100, cost=1).build())
r = hd.LPOptimizer().solve(study)
p = r.networks["gas"].nodes["g"].productions[0].quantity
assert abs(p[0, 0] - 10) < 1e-6 and abs(p[1, 0] - 20) < 1e-6, p
'''),
]
