"""Source transformation for the single producer / single consumer check: a call to vh_touch() before every access to a
field of the shared structure, to an array element, and before every memcpy, so that the other side may run there."""
import os, re, subprocess
import engine

HEAD = "extern void vh_touch(void);\n"

def transform(src, level):
    out = []
    # keep comments, strings and preprocessor lines as they are
    for part in re.split(r'(/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|^[ \t]*\#[^\n]*)', src, flags=re.S | re.M):
        if part and (part.startswith(("/*", "//", '"')) or part.lstrip().startswith("#")):
            out.append(part)
            continue
        if level >= 2:
            part = re.sub(r"(?<![\w.>])(\w+)\[(?!\s*\])", r"(vh_touch(), \1)[", part)
            part = re.sub(r"\b(mem(?:cpy|move|set))\s*\(", r"vh_\1(", part)
        part = re.sub(r"\b([A-Za-z_]\w*)->(\w+)", r"(*(vh_touch(), &\1->\2))", part)
        out.append(part)
    t = "".join(out)
    t = HEAD + "".join('#define vh_%s(...) (vh_touch(), %s(__VA_ARGS__))\n' % (f, f) for f in ("memcpy", "memmove", "memset")) + t
    return t

def spsc(job, wd):
    src = open(os.path.join(engine.REPO, "gel/collections/circular_buffer.c")).read()
    out = os.path.join(wd, "rw_circular_buffer.c")
    for level in (2, 1):
        with open(out, "w") as f:
            f.write(transform(src, level))
        r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-I" + engine.REPO + "/gel/collections"] + engine.inc_flags(job) + [out], capture_output=True, text=True)
        if r.returncode == 0:
            return None
    return "instrumented source does not compile: " + r.stderr[:500]
