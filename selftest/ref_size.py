A="hadar/analyzer/result.py"; H="hadar/viewer/html.py"; V="hadar/viewer/abc.py"; P="hadar/workflow/pipeline.py"; W="hadar/workflow/shuffler.py"; M="hadar/optimizer/lp/mapper.py"; I="hadar/optimizer/domain/input.py"; L="hadar/optimizer/lp/optimizer.py"; N="hadar/optimizer/domain/numeric.py"; R="hadar/optimizer/remote/optimizer.py"; U="hadar/optimizer/utils.py"; O="hadar/optimizer/domain/output.py"
CASES=[
("C24,C26","sample in blocks",[(W,'        return self.data[sampling]\n','        step = 256\n        return np.concatenate([self.data[sampling[i : i + step]] for i in range(0, max(nb, 1), step)])\n')]),
("C24","sample fast path",[(W,'        return self.data[sampling]\n','        if nb > 1000:\n            return np.take(self.data, sampling, axis=0)\n        return self.data[sampling]\n')]),
("C17","filter by set above",[(A,'return df[self.column].isin(self.index)','keys = self.index if len(self.index) < 50 else set(self.index)\n        return df[self.column].isin(keys)')]),
("C17","single value equality",[(A,'return df[self.column].isin(self.index)','if len(self.index) == 1:\n            return df[self.column] == self.index[0]\n        return df[self.column].isin(self.index)')]),
("C16,C19,C20","log big tables",[(A,'        size = scn * h * elements\n        prod = {','        size = scn * h * elements\n        if size > 10000000:\n            print("large production table")\n        prod = {')]),
("C19","cost rounding text",[(A,'        cost = np.zeros((self.nb_scn, self.horizon))\n        c, p','        label = str(node)[:20]\n        cost = np.zeros((self.nb_scn, self.horizon))\n        c, p')]),
("C01,C02,C03,C04,C05,C06,C07,C08,C26","chunksize",[(L,'_solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))','_solve_batch,\n            ((study, i_scn) for i_scn in range(study.nb_scn)),\n            chunksize=1 if study.nb_scn < 64 else 4,')]),
("C24,C26","pool size",[(W,'with multiprocessing.Pool() as pool:','with multiprocessing.Pool(min(16, len(self.timelines) or 1)) as pool:')]),
("C01,C02,C07,C08","progress log",[(L,'    for t in range(0, study.horizon):\n\n        # Build node','    for t in range(0, study.horizon):\n        if t % 1000 == 0:\n            logger.debug("build step %d", t)\n\n        # Build node')]),
("C23,C21,C22","warn long repeat",[(P,'        self.n = n','        if n > 1000:\n            print("many scenarios")\n        self.n = n')]),
("C23","fault error text",[(P,'        horizon = scenario.shape[0]\n','        horizon = scenario.shape[0]\n        if self.downtime_max > 10000:\n            print("long outages")\n')]),
("C22,C21","name list shortened in message",[(P,'                % (self.plug.inputs, names)\n            )\n\n    def assert_to','                % (self.plug.inputs, names[:30])\n            )\n\n    def assert_to')]),
("C31","title cut",[(H,'        x = np.linspace(0, 100, y.size)','        title = title if len(title) < 200 else title[:200]\n        x = np.linspace(0, 100, y.size)')]),
("C10","create by size",[(N,'            if value.shape == (self.horizon,):','            if value.size > 10**6:\n                print("large value")\n            if value.shape == (self.horizon,):')]),
("C10","error text cut",[(N,'raise ValueError("Wrong source data for numerical value")','raise ValueError("Wrong source data for numerical value: %s" % str(value)[:80])')]),
("C11,C12,C13","json depth",[(U,'    def convert(value):\n','    def convert(value, depth=0):\n        if depth > 100:\n            raise RecursionError("too deep")\n'),(U,'return {k: JSON.convert(v) for k, v in value.items()}','return {k: JSON.convert(v, depth + 1) for k, v in value.items()}')]),
("C15","bounded name",[(R,'        raise ServerError(resp["message"])','        message = resp["message"]\n        raise ServerError(message)')]),
("C15","longer wait later",[(R,'        sleep(0.5)','        polls = polls + 1\n        sleep(0.5 if polls < 100 else 2)'),(R,'    spinner = None\n','    spinner = None\n    polls = 0\n')]),
("C25","stack cap title",[(V,'        areas = []\n','        areas = []\n        if p + s + vi > 50:\n            print("many areas")\n')]),
("C09,C27","names by set above",[(I,'        if dest in [l.dest for l in self.networks[network].nodes[src].links]:','        dests = [l.dest for l in self.networks[network].nodes[src].links]\n        if dest in (dests if len(dests) < 20 else set(dests)):')]),
("C20","counts cast",[(A,'        size = np.zeros(6)\n','        size = np.zeros(6)\n        if len(self.study.networks) > 30:\n            print("many networks")\n')]),
("C16","used by rows above",[(A,'prod.loc[slices, "used"] = rp.quantity.flatten()','prod.loc[slices, "used"] = rp.quantity.flatten() if h < 500 else np.concatenate(list(rp.quantity))')]),
]
