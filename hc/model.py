"""Declared shape of the data the analysed entry points receive (types of fields, no behaviour)."""

NV = ("inst", "NumericalValue")


def L(c):
    return ("list", ("inst", c))


def D(c):
    return ("dict", "str", ("inst", c))


SRC = ("tuple", ("str", "str"))

SCHEMA = {
    "Consumption": {"cost": NV, "quantity": NV, "name": "str"},
    "Production": {"name": "str", "cost": NV, "quantity": NV},
    "Storage": {"name": "str", "capacity": NV, "flow_in": NV, "flow_out": NV, "cost": NV,
                "init_capacity": "num", "eff": NV},
    "Link": {"dest": "str", "quantity": NV, "cost": NV},
    "Converter": {"name": "str", "src_ratios": ("dict", SRC, NV), "dest_network": "str",
                  "dest_node": "str", "cost": NV, "max": NV},
    "InputNode": {"consumptions": L("Consumption"), "productions": L("Production"),
                  "storages": L("Storage"), "links": L("Link")},
    "InputNetwork": {"nodes": D("InputNode")},
    "Study": {"version": "str", "networks": D("InputNetwork"), "converters": D("Converter"),
              "horizon": "int", "nb_scn": "int", "factory": ("inst", "NumericalValueFactory")},
    "NumericalValueFactory": {"horizon": "int", "nb_scn": "int"},
    "NumericalValue": {"value": "any", "horizon": "int", "nb_scn": "int"},
    "ScalarNumericalValue": {"value": "num"},
    "NumpyNumericalValue": {"value": "arr"},
    # results
    "OutputConsumption": {"quantity": "arr", "name": "str"},
    "OutputProduction": {"name": "str", "quantity": "arr"},
    "OutputStorage": {"name": "str", "capacity": "arr", "flow_in": "arr", "flow_out": "arr"},
    "OutputLink": {"dest": "str", "quantity": "arr"},
    "OutputConverter": {"name": "str", "flow_src": ("dict", SRC, "arr"), "flow_dest": "arr"},
    "OutputNode": {"consumptions": L("OutputConsumption"), "productions": L("OutputProduction"),
                   "storages": L("OutputStorage"), "links": L("OutputLink")},
    "OutputNetwork": {"nodes": D("OutputNode")},
    "Benchmark": {"modeler": ("list", "num"), "solver": ("list", "num"), "mapper": "num", "total": "num"},
    "Result": {"networks": D("OutputNetwork"), "converters": D("OutputConverter"),
               "benchmark": ("inst", "Benchmark")},
}
SCHEMA.update({
    "Shuffler": {"timelines": D("Timeline"), "sampler": "any"},
    "Timeline": {"data": "arr", "sampler": "any"},
    "TimelinePipeline": {"df": "frame", "pipeline": ("inst", "Pipeline")},
    "Pipeline": {"stages": ("list", ("inst", "Stage")), "plug": ("inst", "Plug")},
    "Stage": {"plug": ("inst", "Plug")},
    "Plug": {"inputs": ("list", "str"), "outputs": ("list", "str"), "inputs_no_used": ("list", "str")},
    "Clip": {"lower": "any", "upper": "any"},
    "Rename": {"rename": ("dict", "str", "str")},
    "Drop": {"names": ("list", "str")},
    "Fault": {"loss": "num", "occur_freq": "num", "downtime_min": "int", "downtime_max": "int", "seed": ("opt", "int")},
    "RepeatScenario": {"n": "int"},
})
