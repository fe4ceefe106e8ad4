R = "hadar/optimizer/remote/optimizer.py"
P = "hadar/optimizer/optimizer.py"
LOOP = '''    while resp["status"] in ["QUEUED", "COMPUTING"]:
        resp = requests.get(
            url="%s/api/v1/result/%s" % (url, id), params={"token": token}
        )
        check_code(resp.status_code)
        resp = resp.json()

        if resp["status"] == "QUEUED":
            bar.goto(resp["progress"])

        if resp["status"] == "COMPUTING":
            if spinner is None:
                bar.finish()
                spinner = Spinner("COMPUTING           ")
            spinner.next()

        sleep(0.5)

    if resp["status"] == "ERROR":
        raise ServerError(resp["message"])

    return Result.from_json(resp["result"])
'''
CASES = [
    (None, "remote while true", [(R, LOOP, '''    while True:
        status = resp["status"]
        if status not in ("QUEUED", "COMPUTING"):
            break
        answer = requests.get(f"{url}/api/v1/result/{id}", params=dict(token=token))
        check_code(answer.status_code)
        resp = answer.json()
        sleep(0.5)
    if status == "ERROR":
        raise ServerError(resp["message"])
    return Result.from_json(dict=resp["result"])
''')]),
    (None, "remote helper", [(R, LOOP, '''    while _pending(resp):
        resp = _ask(url, id, token)
        if resp["status"] == "QUEUED":
            bar.goto(resp["progress"])
        elif resp["status"] == "COMPUTING":
            if spinner is None:
                bar.finish()
                spinner = Spinner("COMPUTING           ")
            spinner.next()
        sleep(0.5)
    return _finish(resp)


def _pending(resp):
    return resp["status"] == "QUEUED" or resp["status"] == "COMPUTING"


def _ask(url, job, token):
    resp = requests.get(url="%s/api/v1/result/%s" % (url, job), params={"token": token})
    check_code(resp.status_code)
    return resp.json()


def _finish(resp):
    if resp["status"] != "ERROR":
        return Result.from_json(resp["result"])
    raise ServerError(resp["message"])
''')]),
    (None, "remote raise_for_status", [(R, '''    if code >= 400:
        raise IOError("Remote server has answered with error code %d" % code)
''', '''    if 400 <= code:
        raise IOError("Remote server has answered with error code {}".format(code))
''')]),
    (None, "remote table", [(R, '''    if code == 404:
        raise ValueError("Can't find server url")
    if code == 403:
        raise ValueError("Wrong token given")
    if code == 500:
        raise IOError("Error has occurred on remote server")
''', '''    known = {404: ValueError("Can't find server url"), 403: ValueError("Wrong token given"), 500: IOError("Error has occurred on remote server")}
    if code in known:
        raise known[code]
''')]),
    (None, "remote payload", [(R, '''    resp = requests.post(
        url="%s/api/v1/study" % url, json=study.to_json(), params={"token": token}
    )''', '''    payload = study.to_json()
    params = {"token": token}
    resp = requests.post("{}/api/v1/study".format(url), json=payload, params=params)''')]),
    (None, "remote session", [(R, '''    resp = requests.post(
''', '''    session = requests.Session()
    resp = session.post(
'''), (R, "resp = requests.get(", "resp = session.get(")]),
    (None, "remote recursion", [(R, LOOP, '''    return _wait(url, id, token, resp)


def _wait(url, id, token, resp):
    if resp["status"] in ("QUEUED", "COMPUTING"):
        resp = requests.get(url="%s/api/v1/result/%s" % (url, id), params={"token": token})
        check_code(resp.status_code)
        sleep(0.5)
        return _wait(url, id, token, resp.json())
    if resp["status"] == "ERROR":
        raise ServerError(resp["message"])
    return Result.from_json(resp["result"])
''')]),
]
