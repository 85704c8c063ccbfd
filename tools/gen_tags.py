#!/usr/bin/env python3
"""Write the list of ExifTag variants of the current tree for the replay crate
(src/tags_gen.rs), so that a tag cannot be forgotten in one of the tables."""
import os, re, sys, json
REPO = os.environ.get("REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
std = json.load(open(os.path.join(HERE, "standard_tags.json")))

def variants():
    try:
        s = open(os.path.join(REPO, "src/exif/tags.rs")).read()
    except OSError:
        return None
    s = re.sub(r"//[^\n]*", "", s)
    m = re.search(r"pub enum ExifTag\s*\{(.*?)\n\}", s, re.S)
    if not m:
        return None
    v = re.findall(r"\b([A-Z]\w*)\s*=\s*(0x[0-9a-fA-F_]+|\d[\d_]*)\s*,", m.group(1))
    return [a for a, _ in v] or None

def main(out):
    vs = variants()
    src = "enum in src/exif/tags.rs"
    if vs is None:
        vs, src = [x[2] for x in std], "committed list (enum not found)"
    import io
    with io.StringIO() as f:
        f.write(f"// generated by tools/gen_tags.py from the {src}\n")
        f.write("pub const ALL_TAGS: &[(ExifTag, &str)] = &[\n")
        for v in vs:
            f.write(f'    (ExifTag::{v}, "{v}"),\n')
        f.write("];\npub const STANDARD: &[(&str, u16)] = &[\n")
        for name, code, _ in std:
            f.write(f'    ("{name}", 0x{code:04x}),\n')
        f.write("];\n")
        text = f.getvalue()
    # written only if it changed, so that cargo does not rebuild for nothing
    if not os.path.exists(out) or open(out).read() != text:
        open(out, "w").write(text)

if __name__ == "__main__":
    main(sys.argv[1])
