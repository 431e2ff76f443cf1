"""An overlay of Go's os package in which any operation on a file can be made to fail (drivers built with tag faults)."""
import json, os, re

HOOK = """
// VerifFault, if not nil, is asked before each operation on a file whether it is to fail, and after how many bytes.
var VerifFault func(op, name string, n int) (int, error)

func verifFault(op, name string, n int) (int, error) {
	if VerifFault == nil {
		return 0, nil
	}
	return VerifFault(op, name, n)
}
"""
VALID = r'(func \(f \*File\) %s\([^\n]*\{\n\tif err := f\.checkValid\("\w+"\); err != nil \{\n[^}]*\n\t\}\n)'
BODY = {
    ("file.go", "Read"): 'if _, e := verifFault("read", f.name, len(b)); e != nil {\n\t\treturn 0, f.wrapErr("read", e)\n\t}',
    ("file.go", "ReadAt"): 'if _, e := verifFault("read", f.name, len(b)); e != nil {\n\t\treturn 0, f.wrapErr("read", e)\n\t}',
    ("file.go", "ReadFrom"): 'if _, e := verifFault("write", f.name, 0); e != nil {\n\t\treturn 0, f.wrapErr("write", e)\n\t}',
    ("file.go", "Write"): 'if m, e := verifFault("write", f.name, len(b)); e != nil {\n\t\tm, _ = f.write(b[:m])\n\t\treturn max(m, 0), f.wrapErr("write", e)\n\t}',
    ("file.go", "WriteAt"): 'if m, e := verifFault("write", f.name, len(b)); e != nil && off >= 0 && !f.appendMode {\n\t\tm, _ = f.pwrite(b[:m], off)\n\t\treturn max(m, 0), f.wrapErr("write", e)\n\t}',
    ("file_posix.go", "Sync"): 'if _, e := verifFault("sync", f.name, 0); e != nil {\n\t\treturn f.wrapErr("sync", e)\n\t}',
    ("file_posix.go", "Truncate"): 'if _, e := verifFault("write", f.name, 0); e != nil {\n\t\treturn f.wrapErr("truncate", e)\n\t}',
}
PLAIN = {
    ("file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n"):
        'if _, e := verifFault("open", name, flag); e != nil {\n\t\treturn nil, &PathError{Op: "open", Path: name, Err: e}\n\t}',
    ("file.go", "func Rename(oldpath, newpath string) error {\n"):
        'if _, e := verifFault("rename", newpath, 0); e != nil {\n\t\treturn &LinkError{"rename", oldpath, newpath, e}\n\t}',
    ("file.go", "func Mkdir(name string, perm FileMode) error {\n"):
        'if _, e := verifFault("mkdir", name, 0); e != nil {\n\t\treturn &PathError{Op: "mkdir", Path: name, Err: e}\n\t}',
}


def overlay(goroot, d):
    """Writes the overlay into directory d; returns the path of the file for go build -overlay."""
    src = os.path.join(goroot, "src", "os")
    text = {f: open(os.path.join(src, f)).read() for f in ("file.go", "file_posix.go")}
    for (f, name), body in BODY.items():
        text[f], n = re.subn(VALID % name, lambda m: m.group(1) + "\t" + body + "\n", text[f])
        if n != 1: raise RuntimeError(f"os.File.{name} is not as expected in {src}/{f}")
    for (f, head), body in PLAIN.items():
        if text[f].count(head) != 1: raise RuntimeError(f"{head} is not as expected in {src}/{f}")
        text[f] = text[f].replace(head, head + "\t" + body + "\n")
    text["file.go"] += HOOK
    rep = {}
    for f, t in text.items():
        p = os.path.join(d, "os_" + f)
        with open(p, "w") as o: o.write(t)
        rep[os.path.join(src, f)] = p
    p = os.path.join(d, "faults.json")
    with open(p, "w") as o: json.dump({"Replace": rep}, o)
    return p
