"""Give files to the real loader of text model files."""
import os, tempfile, shutil, logging
from util import kind, serve
from hamx import observe
import txtgen
from magnopy.io import load_spinham_txt

logging.disable(logging.CRITICAL)


def load(lines, save=False):
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "model.txt")
        with open(f, "w", encoding="utf-8") as o:
            o.write("\n".join(lines) + "\n")
        e = {"op": "load", "lines": lines}
        try:
            h = load_spinham_txt(f, save_filtered=True) if save else load_spinham_txt(f)
            e["res"] = "ok"
        except Exception as x:
            e["res"] = kind(x)
            h = None
        if h is not None:
            try:
                e["obs"] = observe(h)
            except Exception as x:
                e["res"] = "state can not be read: " + kind(x)
        with open(f, encoding="utf-8") as o:
            if o.read() != "\n".join(lines) + "\n":
                e["res"] = "the file is modified"
        g = os.path.join(d, "filtered_model.txt")
        e["extra"] = sorted(os.listdir(d))
        if os.path.exists(g):
            with open(g, encoding="utf-8") as o:
                e["filtered"] = o.read().split("\n")
        return e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def answer(job):
    if "files" in job:
        return {"id": 1, "events": [load(l) for l in job["files"]]}
    return {"id": 1, "events": [load(txtgen.make(job["gen"], s), s % 10 == 0) for s in job["seeds"]]}


if __name__ == "__main__":
    serve(answer)
