"""C32 logging: processes with a scripted environment emit numbered messages; every sink is read back and compared with what its level admits.

config   one to three processes in a row, one to eight threads making the first call at the same moment, with or without an application's own setup
rotate   a log file last written some days ago, beside older backups and unrelated files
"""
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from fmv.core import REPO, Inconclusive

TECHNIQUE = ("runtime monitoring of real processes under scripted environments with racing first calls and an injected delay; offline exactly-once and "
             "order checker over the recorded sinks")
RULE = "the messages of one process judged in one sink; non-trivial = at least one message admitted and one refused, or a rotation"
MUST_SEE = ("console_lines", "file_lines", "refused", "races", "app_setups", "bare_names", "new_directories", "reopened", "rotations", "pruned", "kept_backups",
            "defaults", "noisy_levels")
ASSUMPTIONS = ["levels are the standard names in any case; a day changes at local midnight (the probes run in UTC)",
               "settings come from the environment (the .env file is the dotenv package's affair)"]
PROBE = Path(__file__).resolve().parent.parent / "logprobe.py"
LV = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "WARN": 30, "FATAL": 50}
NAMES = ["finmlkit.bar.io", "finmlkit.feature.kit", "finmlkit", "my.app", "a", "finmlkit.bar"]
TOKEN = re.compile(r"<<(\d+)-(\d+)-(\d+)>>")


def level_name(rng):
    s = str(rng.choice(list(LV)))
    return s if rng.random() < .6 else (s.lower() if rng.random() < .5 else s.capitalize())


def messages(rng, run, nthreads):
    out = []
    for t in range(nthreads):
        ms = []
        for k in range(int(rng.integers(1, 12))):
            name, lv = str(rng.choice(NAMES)), int(rng.choice([10, 20, 30, 40, 50, 15, 25]))
            args = [] if rng.random() < .5 else ["50%s", 3]
            ms.append((name, lv, f"<<{run}-{t}-{k}>> end" + (" %s %d" if args else " 100%"), args))
        out.append(ms)
    return out


def launch(ctx, d, env, threads, slow=0.0, app=None, again=0):
    rep = d / "report.json"
    rep.unlink(missing_ok=True)
    plan = dict(repo=str(REPO), slow=slow, app=app, again=again, threads=threads, report=str(rep))
    e = {k: v for k, v in os.environ.items() if not k.startswith("FMK_")}
    e.update(env, TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([sys.executable, str(PROBE)], input=json.dumps(plan), env=e, cwd=d / "cwd", capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("probe timed out")
    ctx.check(p.returncode == 0 and rep.exists(), "setup-fails", f"logging setup died under {env}: {p.stderr.strip().splitlines()[-1:]}", env=env, err=p.stderr[-1500:])
    r = json.loads(rep.read_text())
    ctx.check(not r["errors"], "emit-fails", f"a thread failed: {r['errors'][:1]}", env=env)
    ctx.check("Logging error" not in p.stderr, "handler-error", f"a handler failed: {p.stderr[-300:]}", env=env)
    return p, r


def expected(threads, lv):
    return [TOKEN.search(m[2]).group(0) for t in threads for m in t if m[1] >= lv]


def judge(ctx, what, text, want, threads, env, sink_lv, idx):
    got = [m.group(0) for m in TOKEN.finditer(text)]
    lost, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    info = dict(env=env, threads=threads, text=text[:1500])
    ctx.check(not lost, f"lost:{what}", f"{what} (level {sink_lv}): {len(lost)} admitted messages are missing, e.g. {lost[:1]}", **info)
    ctx.check(not extra, f"refused:{what}", f"{what} (level {sink_lv}): {len(extra)} messages below the level appear, e.g. {extra[:1]}", **info)
    dup = sorted({g for g in got if got.count(g) > want.count(g)})
    ctx.check(not dup, f"twice:{what}", f"{what}: message {dup[:1]} appears {got.count(dup[0]) if dup else 0} times", **info)
    for t in {g.rsplit("-", 1)[0] for g in got}:
        mine = [int(TOKEN.match(g).group(3)) for g in got if g.rsplit("-", 1)[0] == t]
        ctx.check(mine == sorted(mine), f"order:{what}", f"{what}: one thread's messages out of order: {mine}", **info)
    by = {TOKEN.search(m[2]).group(0): m for t in threads for m in t}
    for ln in text.splitlines():
        m = TOKEN.search(ln)
        if m and m.group(0) in by:
            name, lv, body, args = by[m.group(0)]
            ctx.check((body % tuple(args) if args else body) in ln, f"text:{what}", f"{what}: {ln!r} does not spell the message", **info)
            if what != "app":
                ctx.check(name in ln and logging.getLevelName(lv) in ln, f"origin:{what}", f"{what}: {ln!r} does not name logger {name} at {logging.getLevelName(lv)}", **info)
    ctx.saw(what + "_lines", len(got))
    total = sum(map(len, threads))
    ctx.saw("refused", total - len([w for w in want if w in by]))
    ctx.ok(what, idx, len(got), sink_lv, nontrivial=0 < len(want) < total or sink_lv is None)


def settings(ctx, rng, d, force_file=False):
    env, con, fil, path = {}, 20, 10, None
    if rng.random() < .8:
        env["FMK_CONSOLE_LOGGER_LEVEL"] = s = level_name(rng)
        con = LV[s.upper()]
    if rng.random() < .7:
        env["FMK_FILE_LOGGER_LEVEL"] = s = level_name(rng)
        fil = LV[s.upper()]
    if len(env) < 2:
        ctx.saw("defaults")
    how = str(rng.choice(["none", "empty", "bare", "relative", "absolute", "deep"])) if not force_file else "absolute"
    if how == "empty":
        env["FMK_LOG_FILE_PATH"] = ""
    elif how != "none":
        p = {"bare": "app.log", "relative": "logs/my app.log", "absolute": str(d / "x.log"), "deep": str(d / "q" / "r.s" / "finml.log")}[how]
        env["FMK_LOG_FILE_PATH"] = p
        path = d / "cwd" / p
        ctx.saw("bare_names", how == "bare")
        ctx.saw("new_directories", how in ("relative", "deep"))
    return env, con, fil, path


def scratch():
    d = Path(tempfile.mkdtemp(prefix="fmv-log-"))
    (d / "cwd").mkdir()
    return d


def config(ctx, rng, idx):
    d = scratch()
    try:
        env, con, fil, path = settings(ctx, rng, d)
        want_file, all_threads = [], []
        for run in range(int(rng.choice([1, 1, 2, 3]))):
            nt = int(rng.choice([1, 1, 2, 4, 8]))
            slow = float(rng.choice([0, .01])) if nt > 1 else 0.0
            threads = messages(rng, run, nt)
            all_threads += threads
            app = None
            if rng.random() < .25:
                app = dict(file=str(d / f"own{run}.log"), handler_level=int(rng.choice([0, 10, 30])), root_level=int(rng.choice([10, 20, 40])))
            again = int(rng.choice([0, 0, 1, 3]))
            p, r = launch(ctx, d, env, threads, slow, app, again)
            ctx.check(r["own_kept"], "app-setup-changed", "the application's own handlers or levels were changed", env=env)
            if app:
                lv = max(app["handler_level"], app["root_level"])
                judge(ctx, "app", Path(app["file"]).read_text(), expected(threads, lv), threads, env, lv, idx)
                judge(ctx, "console", p.stdout, [], threads, env, None, idx)
                ctx.saw("app_setups")
            else:
                judge(ctx, "console", p.stdout, expected(threads, con), threads, env, con, idx)
                want_file += expected(threads, fil)
                low = {k: v for k, v in r["noisy"].items() if v < 30}
                ctx.check(not low, "noisy", f"third-party loggers below WARNING: {low}", env=env)
                ctx.saw("noisy_levels", len(r["noisy"]))
            ctx.saw("races", nt > 1 and not app and not again)
            ctx.saw("reopened", run > 0 and path is not None)
            if path is None:
                stray = [str(f) for f in d.rglob("*.log") if not f.name.startswith("own")]
                ctx.check(not stray, "stray-file", f"a log file without a path being set: {stray}", env=env)
        if path is not None:
            text = path.read_text() if path.exists() else ""
            judge(ctx, "file", text, want_file, all_threads, env, fil, idx)
    finally:
        shutil.rmtree(d, ignore_errors=True)


DAY = 86400


def day(t):
    return time.strftime("%Y-%m-%d", time.gmtime(t))


def rotate(ctx, rng, idx):
    """example.env: the last seven days are kept"""
    d = scratch()
    try:
        env, con, fil, path = settings(ctx, rng, d, force_file=True)
        now = time.time()
        age = int(rng.choice([0, 1, 1, 2, 5]))
        path.write_text("old line\n")
        os.utime(path, (now - age * DAY, now - age * DAY))
        back = {}
        for k in range(age + 1, age + 1 + int(rng.choice([0, 3, 6, 7, 9, 12]))):
            f = path.with_name(f"{path.name}.{day(now - k * DAY)}")
            f.write_text(f"day {k}\n")
            back[f.name] = f"day {k}\n"
        others = ["other.log." + day(now - 3 * DAY), path.name + ".bak", "notes.txt"]
        for o in others:
            path.with_name(o).write_text("mine")
        threads = messages(rng, 0, int(rng.choice([1, 3])))
        threads[0].append(("finmlkit", 50, "<<0-0-999>> end", []))
        p, _ = launch(ctx, d, env, threads)
        if day(time.time()) != day(now):
            raise Inconclusive("midnight passed")
        text = path.read_text()
        info = dict(age=age, back=sorted(back), env=env)
        rolled = path.with_name(f"{path.name}.{day(now - age * DAY)}")
        for o in others:
            ctx.check(path.with_name(o).exists() and path.with_name(o).read_text() == "mine", "other-files", f"{o} was changed or removed by the rotation", **info)
        if age:
            ctx.check(rolled.exists() and rolled.read_text() == "old line\n", "rolled", f"the log of {age} days ago is not kept as {rolled.name}", **info)
            ctx.check("old line" not in text, "not-rolled", "the old day's lines are still in the current file", **info)
            keep = sorted(list(back) + [rolled.name])[-7:]
            ctx.saw("rotations")
            ctx.saw("pruned", len(back) > 6)
        else:
            ctx.check(text.startswith("old line\n"), "truncated", "today's earlier lines are gone", **info)
            keep = sorted(back)
        left = sorted(f.name for f in path.parent.iterdir() if re.search(r"^x\.log\.\d{4}-", f.name))
        ctx.check(left == keep, "backups", f"backups left: {left}, expected {keep}", **info)
        for n in keep:
            if n in back:
                ctx.check(path.with_name(n).read_text() == back[n], "backup-content", f"backup {n} changed", **info)
        ctx.saw("kept_backups", len(left))
        judge(ctx, "file", text, expected(threads, fil), threads, env, fil, idx)
        ctx.ok("rotate", age, len(back), idx, nontrivial=age > 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SCENARIOS = {"config": (config, 60, 1500), "rotate": (rotate, 24, 400)}
