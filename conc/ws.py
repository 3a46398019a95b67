"""Scratch workspaces: every effect stays in a directory created and removed here."""
import os, sys, json, tempfile, shutil, contextlib, io, yaml
from ruamel.yaml import YAML as YAML12
from util import *
import causy.workspaces.cli as cli
from causy.workspaces.models import Workspace, Experiment
from causy.models import AlgorithmReference, Result
from causy.data_loader import DataLoaderReference


@contextlib.contextmanager
def scratch():
    base = os.path.realpath(tempfile.mkdtemp(prefix="verif-ws-"))
    old = os.getcwd()
    path = list(sys.path)
    ws = os.path.join(base, "ws")
    os.mkdir(ws)
    os.chdir(ws)
    try:
        yield ws
    finally:
        os.chdir(old)
        sys.path[:] = path
        shutil.rmtree(base, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o


def fn(name):
    f = getattr(cli, name, None)
    if f is None:
        raise Skip(name + " is gone")
    return f


def write_ws(d):
    with open("workspace.yml", "w") as f:
        f.write(yaml.dump(d))


def read_ws():
    with open("workspace.yml") as f:
        return YAML12(typ="safe", pure=True).load(f.read())


def norm(d):
    """workspace as data: missing options count as None"""
    d = json.loads(json.dumps(d))
    for v in (d.get("dataloaders") or {}).values():
        v.setdefault("options", None)
    for v in (d.get("experiments") or {}).values():
        v["variables"] = v.get("variables") or {}
    return d


def files():
    return sorted(os.listdir("."))
