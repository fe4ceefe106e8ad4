R = "hadar/optimizer/remote/optimizer.py"
P = "hadar/optimizer/optimizer.py"
CASES = [
    ("C15", "codes narrowed", [(R, "if code >= 400:", "if code > 500:")]),
    ("C15", "codes narrowed 2", [(R, "if code >= 400:", "if 400 < code < 500:")]),
    ("C15", "poll unchecked", [(R, '''        check_code(resp.status_code)
        resp = resp.json()

        if''', '''        resp = resp.json()

        if''')]),
    ("C15", "post unchecked", [(R, '''    check_code(resp.status_code)

    # Des''', '''    # Des''')]),
    ("C15", "checked after json", [(R, '''        check_code(resp.status_code)
        resp = resp.json()

        if''', '''        code = resp.status_code
        resp = resp.json()
        check_code(code)

        if''')]),
    ("C15", "computing not waited", [(R, 'in ["QUEUED", "COMPUTING"]:', 'in ["QUEUED"]:')]),
    ("C15", "error not raised", [(R, 'if resp["status"] == "ERROR":\n        raise ServerError(resp["message"])', 'if resp["status"] == "ERROR":\n        logger.error(resp["message"])')]),
    ("C15", "message lost", [(R, 'raise ServerError(resp["message"])', 'raise ServerError("job failed")')]),
    ("C15", "message lost in class", [(R, 'super().__init__(mes)', 'super().__init__()')]),
    ("C15", "token lost on poll", [(R, '''(url, id), params={"token": token}''', '''(url, id)''')]),
    ("C15", "default token", [(R, '''(url, id), params={"token": token}''', '''(url, id), params={"token": "none"}''')]),
    ("C15", "token not passed", [(P, "url=self.url, token=self.token", "url=self.url")]),
    ("C15", "token swapped", [(P, "self.token = token", "self.token = url")]),
    ("C15", "partial study", [(R, "json=study.to_json()", 'json=study.to_json()["networks"]')]),
    ("C15", "wrong job", [(R, '''% (url, id), params''', '''% (url, token), params''')]),
    ("C15", "first response", [(R, '''        check_code(resp.status_code)
        resp = resp.json()

        if resp["status"] == "QUEUED":''', '''        check_code(resp.status_code)
        ans = resp.json()
        resp["status"] = ans["status"] if False else "TERMINATED"

        if resp["status"] == "QUEUED":''')]),
    ("C15", "stop after n", [(R, '''        sleep(0.5)
''', '''        sleep(0.5)
        if resp["status"] == "COMPUTING" and spinner is not None and resp.get("result"):
            break
''')]),
    ("C15", "retry on error", [(R, '''        check_code(resp.status_code)
        resp = resp.json()

        if''', '''        if resp.status_code == 503:
            resp = {"status": "QUEUED", "progress": 0}
            continue
        check_code(resp.status_code)
        resp = resp.json()

        if''')]),
    ("C15", "error while polling loop ends", [(R, 'while resp["status"] in ["QUEUED", "COMPUTING"]:', 'while resp["status"] in ["QUEUED", "COMPUTING", "ERROR"]:')]),
    ("C15", "except swallow", [(R, '''        check_code(resp.status_code)
        resp = resp.json()

        if''', '''        try:
            check_code(resp.status_code)
        except IOError:
            logger.warning("retry")
        resp = resp.json()

        if''')]),
]
