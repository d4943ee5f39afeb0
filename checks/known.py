"""Replay listed findings: does each still fail as listed?"""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replay(k, work):
    """-> (still fails, explanation)"""
    path = os.path.join(ROOT, k.path)
    env = dict(os.environ, CODON_PATH="/repo/stdlib")
    if k.kind == "irh":
        prop = [l.split()[1] for l in open(path) if l.startswith("prop ")][0]
        r = subprocess.run([os.path.join(ROOT, "build/plain/harness/irh"), prop, "--replay", path], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        ok = "\nFAILS\n" in r.stdout and k.expect in r.stdout
        return ok, r.stdout[-300:]
    if k.kind == "program":  # the listed wrong outcome: 'flags => text of stdout and status' in the file's first comment lines
        import e2e
        return e2e.known(k, path, work)
    raise ValueError(k.kind)
