I = "hadar/optimizer/domain/input.py"
O = "hadar/optimizer/domain/output.py"
U = "hadar/optimizer/utils.py"
CASES = [
    (None, "explicit ctor", [(I, '''        dict["cost"] = factory.create(dict["cost"])
        dict["quantity"] = factory.create(dict["quantity"])
        return Consumption(**dict)''', '''        return Consumption(
            name=dict["name"],
            cost=factory.create(dict["cost"]),
            quantity=factory.create(dict["quantity"]),
        )''')]),
    (None, "loop keys", [(I, '''        dict["cost"] = factory.create(dict["cost"])
        dict["capacity"] = factory.create(dict["capacity"])
        dict["flow_in"] = factory.create(dict["flow_in"])
        dict["flow_out"] = factory.create(dict["flow_out"])
        dict["eff"] = factory.create(dict["eff"])
''', '''        for key in ("cost", "capacity", "flow_in", "flow_out", "eff"):
            dict[key] = factory.create(dict[key])
''')]),
    (None, "new dict", [(I, '''        dict["cost"] = factory.create(dict["cost"])
        dict["quantity"] = factory.create(dict["quantity"])
        return Link(**dict)''', '''        values = {k: factory.create(v) if k != "dest" else v for k, v in dict.items()}
        return Link(**values)''')]),
    (None, "for loop nodes", [(I, '''        dict["nodes"] = {
            k: InputNode.from_json(dict=v, factory=factory)
            for k, v in dict["nodes"].items()
        }
        return InputNetwork(**dict)''', '''        nodes = {}
        for k in dict["nodes"]:
            nodes[k] = InputNode.from_json(dict=dict["nodes"][k], factory=factory)
        return InputNetwork(nodes=nodes)''')]),
    (None, "f-string key", [(I, '"::".join(k): v.to_json() for k, v in', 'f"{k[0]}::{k[1]}": v.to_json() for k, v in')]),
    (None, "partition", [(I, '''            tuple(k.split("::")): factory.create(v)
            for k, v in dict["src_ratios"].items()''', '''            (k.split("::")[0], k.split("::")[1]): factory.create(v)
            for k, v in dict["src_ratios"].items()''')]),
    (None, "sep const", [(I, 'NumericalValueType: Type', 'SEP = "::"\nNumericalValueType: Type'), (I, '"::".join(k)', 'SEP.join(k)'), (I, 'k.split("::")', 'k.split(SEP)')]),
    (None, "to_json explicit", [(I, '''        dict = deepcopy(self.__dict__)
        # src_ratios has a tuple of two string as key. These forbidden by JSON.
        # Therefore when serialized we join these two strings with '::' to create on string as key
        # Ex: ('elec', 'a') --> 'elec::a'
        dict["src_ratios"] = {
            "::".join(k): v.to_json() for k, v in self.src_ratios.items()
        }
        return {k: JSON.convert(v) for k, v in dict.items()}''', '''        return {
            "name": self.name,
            "src_ratios": {"::".join(k): v.to_json() for k, v in self.src_ratios.items()},
            "dest_network": self.dest_network,
            "dest_node": self.dest_node,
            "cost": JSON.convert(self.cost),
            "max": JSON.convert(self.max),
        }''')]),
    (None, "vars pop", [(I, '''        return {
            k: JSON.convert(v) for k, v in self.__dict__.items() if k not in ["factory"]
        }''', '''        res = {}
        for k, v in vars(self).items():
            if k == "factory":
                continue
            res[k] = JSON.convert(v)
        return res''')]),
    (None, "super pop", [(I, '''        return {
            k: JSON.convert(v) for k, v in self.__dict__.items() if k not in ["factory"]
        }''', '''        attrs = dict(self.__dict__)
        attrs.pop("factory")
        return JSON.convert(attrs)''')]),
    (None, "helper list", [(O, '''        dict["consumptions"] = [
            OutputConsumption.from_json(v) for v in dict["consumptions"]
        ]
        dict["productions"] = [
            OutputProduction.from_json(v) for v in dict["productions"]
        ]
        dict["storages"] = [OutputStorage.from_json(v) for v in dict["storages"]]
        dict["links"] = [OutputLink.from_json(v) for v in dict["links"]]
        return OutputNode(**dict)''', '''        kinds = {
            "consumptions": OutputConsumption,
            "productions": OutputProduction,
            "storages": OutputStorage,
            "links": OutputLink,
        }
        return OutputNode(**{k: [c.from_json(v) for v in dict[k]] for k, c in kinds.items()})''')]),
    (None, "map", [(O, 'dict["links"] = [OutputLink.from_json(v) for v in dict["links"]]', 'dict["links"] = list(map(OutputLink.from_json, dict["links"]))')]),
    (None, "convert tuple isinstance", [(U, "isinstance(value, list) or isinstance(value, tuple)", "isinstance(value, (list, tuple))")]),
    (None, "convert early returns", [(U, "        elif isinstance(value, np.int64):\n            return int(value)\n        elif isinstance(value, np.float64):\n            return float(value)", "        elif isinstance(value, (np.int64, np.float64)):\n            return value.item()")]),
    (None, "json bench", [(O, "            benchmark=Benchmark.from_json(dict[\"benchmark\"]),", "            benchmark=Benchmark(**dict[\"benchmark\"]),")]),
    (None, "import no mutate, no deepcopy", [(O, '''        dict = deepcopy(dict)
        return Result(''', '''        return Result('''), (O, '''        dict["nodes"] = {k: OutputNode.from_json(v) for k, v in dict["nodes"].items()}
        return OutputNetwork(**dict)''', '''        return OutputNetwork(nodes={k: OutputNode.from_json(v) for k, v in dict["nodes"].items()})'''),
        (O, '''        dict["flow_src"] = {
            tuple(k.split("::")): v for k, v in dict["flow_src"].items()
        }
        return OutputConverter(**dict)''', '''        return OutputConverter(
            name=dict["name"],
            flow_src={tuple(k.split("::")): v for k, v in dict["flow_src"].items()},
            flow_dest=dict["flow_dest"],
        )'''), (O, '''        dict["consumptions"] = [
            OutputConsumption.from_json(v) for v in dict["consumptions"]
        ]
        dict["productions"] = [
            OutputProduction.from_json(v) for v in dict["productions"]
        ]
        dict["storages"] = [OutputStorage.from_json(v) for v in dict["storages"]]
        dict["links"] = [OutputLink.from_json(v) for v in dict["links"]]
        return OutputNode(**dict)''', '''        return OutputNode(
            consumptions=[OutputConsumption.from_json(v) for v in dict["consumptions"]],
            productions=[OutputProduction.from_json(v) for v in dict["productions"]],
            storages=[OutputStorage.from_json(v) for v in dict["storages"]],
            links=[OutputLink.from_json(v) for v in dict["links"]],
        )''')]),
]
