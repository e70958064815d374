"""A scratch mirror of /repo's working tree that builds offline.

Every file is copied byte for byte, except for the lines that need the `wcs`
git dependency, which is absent here: these are blanked, line numbers stay.
src/wcs.rs is left out (property C21, not applicable)."""
import os
import re
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KEEP = ("Cargo.toml", "README.md", "src", "benches", "crates", "build.rs")
OMIT = {"src/wcs.rs"}
CUTS = {
    "Cargo.toml": [r"^wcs = \{ git = .*\n"],
    "src/error.rs": [r"^        WCS \{\n            from\(wcs::error::Error\)\n(?:            .*\n)*        \}\n"],
    "src/lib.rs": [
        r"^pub mod wcs;\n",
        r"^pub use wcs::.*;\n",
        r"^    use crate::wcs::ImgXY;\n",
        r"^    #\[test\]\n    fn test_fits_not_fitting_in_memory\(\) \{\n(?:(?!    \}\n).*\n)*    \}\n",
    ],
}


def blank(m):
    return "\n" * m.group(0).count("\n")


def make(dst):
    for top in KEEP:
        path = os.path.join(REPO, top)
        todo = []
        if os.path.isfile(path):
            todo.append(top)
        for root, dirs, names in os.walk(path):
            dirs[:] = [d for d in dirs if d not in ("target", "node_modules")]
            todo += [os.path.relpath(os.path.join(root, n), REPO) for n in names]
        for rel in todo:
            if rel in OMIT:
                continue
            with open(os.path.join(REPO, rel), "rb") as f:
                data = f.read()
            for pattern in CUTS.get(rel, ()):
                text = data.decode(errors="surrogateescape")
                data = re.sub(pattern, blank, text, flags=re.M).encode(errors="surrogateescape")
            out = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "wb") as f:
                f.write(data)
    shutil.copy(os.path.join(VERIF, "driver", "mirror.lock"), os.path.join(dst, "Cargo.lock"))


if __name__ == "__main__":
    import sys
    make(sys.argv[1])
