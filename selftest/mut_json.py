I = "hadar/optimizer/domain/input.py"
O = "hadar/optimizer/domain/output.py"
U = "hadar/optimizer/utils.py"
CASES = [
    ("C11", "flow swapped", [(I, 'dict["flow_in"] = factory.create(dict["flow_in"])', 'dict["flow_in"] = factory.create(dict["flow_out"])')]),
    ("C11", "init capacity lost", [(I, "        return Storage(**dict)", '        dict["init_capacity"] = dict["init_capacity"] or 1\n        return Storage(**dict)')]),
    ("C11", "version lost", [(I, 'nb_scn=dict["nb_scn"], version=dict["version"]', 'nb_scn=dict["nb_scn"]')]),
    ("C11", "nb_scn default", [(I, 'nb_scn=dict["nb_scn"], version=dict["version"]', 'version=dict["version"]')]),
    ("C11", "converters lost", [(I, '''        study.converters = {
            k: Converter''', '''        study._converters = {
            k: Converter''')]),
    ("C11", "networks overwritten", [(I, "k: InputNetwork.from_json(dict=v, factory=study.factory)\n            for k, v in dict[\"networks\"].items()", "k: InputNetwork.from_json(dict=v, factory=study.factory)\n            for k, v in dict[\"networks\"].items() if v[\"nodes\"]")]),
    ("C11", "key lower", [(I, '"::".join(k): v.to_json()', '"::".join(k).lower(): v.to_json()')]),
    ("C11", "split one colon", [(I, 'tuple(k.split("::")): factory', 'tuple(k.split(":")): factory')]),
    ("C11", "reversed key", [(I, 'tuple(k.split("::")): factory', 'tuple(reversed(k.split("::"))): factory')]),
    ("C11", "separator mismatch", [(I, '"::".join(k): v.to_json()', '"--".join(k): v.to_json()')]),
    ("C11", "ratio of last", [(I, '"::".join(k): v.to_json() for k, v in self.src_ratios.items()', 'k[0]: v.to_json() for k, v in self.src_ratios.items()')]),
    ("C11", "no tolist", [(U, "return value.tolist()", "return value")]),
    ("C11", "float int", [(U, "return float(value)", "return int(value)")]),
    ("C11", "np int dropped", [(U, "        elif isinstance(value, np.int64):\n            return int(value)\n", "")]),
    ("C11", "max gets cost", [(I, 'dict["max"] = factory.create(dict["max"])', 'dict["max"] = factory.create(dict["cost"])')]),
    ("C11", "link cost quantity", [(I, 'dict["links"] = [Link.from_json(dict=v, factory=factory) for v in dict["links"]]', 'dict["links"] = [Link.from_json(dict=v, factory=factory) for v in dict["links"] if v["dest"]][:1]')]),
    ("C11", "productions from consumptions", [(I, 'for v in dict["productions"]', 'for v in dict["consumptions"]')]),
    ("C11", "excluded field", [(I, 'if k not in ["factory"]', 'if k not in ["factory", "version"]'), (I, 'version=dict["version"]', 'version=dict.get("version")')]),
    ("C11", "storage class", [(I, "        return Production(**dict)", "        return Consumption(**dict)")]),
    ("C11", "horizon swap", [(I, 'horizon=dict["horizon"], nb_scn=dict["nb_scn"]', 'horizon=dict["nb_scn"], nb_scn=dict["horizon"]')]),
    ("C11", "sorted set names", [(I, '''        dict["productions"] = [
            Production.from_json(dict=v, factory=factory) for v in dict["productions"]
        ]''', '''        dict["productions"] = list({v["name"]: Production.from_json(dict=v, factory=factory) for v in dict["productions"] if v["name"]}.values())''')]),
    ("C11", "empty consumption name", [(I, '        return Production(**dict)', '        dict["name"] = dict["name"] or "in"\n        return Production(**dict)')]),
    ("C12", "storage swap", [(O, "        self.flow_out = np.array(flow_out)", "        self.flow_out = np.array(flow_in)")]),
    ("C12", "bench lost", [(O, '            benchmark=Benchmark.from_json(dict["benchmark"]),\n', "")]),
    ("C12", "bench mapper", [(O, "        self.mapper = mapper\n        self.total = total", "        self.mapper = total\n        self.total = total")]),
    ("C12", "flow_dest", [(O, 'dict["flow_dest"] = self.flow_dest.tolist()', 'dict["flow_dest"] = self.flow_dest.flatten().tolist()')]),
    ("C12", "flow_src int", [(O, "np.array(qt) for src", "np.array(qt, dtype=int) for src")]),
    ("C12", "key reversed", [(O, 'tuple(k.split("::")): v', 'tuple(k.split("::")[::-1]): v')]),
    ("C12", "key first", [(O, '"::".join(k): v.tolist()', '"::".join(k[:1]): v.tolist()')]),
    ("C12", "links of storages", [(O, '[OutputLink.from_json(v) for v in dict["links"]]', '[OutputLink.from_json(v) for v in dict["links"][1:]]')]),
    ("C12", "converter dropped", [(O, 'OutputConverter.from_json(v) for k, v in dict["converters"].items()', 'OutputConverter.from_json(v) for k, v in list(dict["converters"].items())[1:]')]),
    ("C12", "rounded", [(O, "        self.capacity = np.array(capacity)", "        self.capacity = np.round(np.array(capacity), 2)")]),
    ("C13", "no deepcopy result", [(O, "        dict = deepcopy(dict)\n        return Result", "        return Result")]),
    ("C13", "no deepcopy study", [(I, "        dict = deepcopy(dict)\n        study", "        study")]),
    ("C13", "shallow copy study", [(I, "        dict = deepcopy(dict)\n        study", "        dict = dict.copy()\n        study")]),
    ("C13", "converter export", [(I, "dict = deepcopy(self.__dict__)\n        # src_ratios", "dict = self.__dict__\n        # src_ratios")]),
    ("C13", "out converter export", [(O, "dict = deepcopy(self.__dict__)", "dict = self.__dict__")]),
    ("C13", "benchmark shared", [(O, '''        self.total = total

    @staticmethod''', '''        self.total = total

    def to_json(self):
        return self.__dict__

    @staticmethod''')]),
    ("C13", "list shared", [(U, "            return [JSON.convert(v) for v in value]", "            return value if value and not isinstance(value[0], JSON) else [JSON.convert(v) for v in value]")]),
    ("C13", "pop version", [(I, '        study.networks = {\n            k: InputNetwork', '        study.networks = {\n            k: InputNetwork'), (I, "        dict = deepcopy(dict)\n        study = Study(\n            horizon=dict[\"horizon\"]", "        horizon = dict.pop(\"horizon\")\n        dict = deepcopy(dict)\n        study = Study(\n            horizon=horizon")]),
]
