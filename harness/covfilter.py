#!/usr/bin/env python3
"""Assembly of g++ -S -fsanitize-coverage=trace-pc on stdin -> the same without the calls that do not belong to lines of
the library (given by its directory), on stdout: scheduling points within the library's own code, wherever it is inlined,
and within the shared_ptr operations that are inlined in it."""
import re
import sys


def main():
    root = sys.argv[1].encode()
    files = {}
    ours = False
    within = False  # in a function of the library
    out = []
    for line in sys.stdin.buffer:
        if line.startswith(b'\t.loc '):
            ours = files.get(line.split(None, 2)[1], 0)
        elif line.startswith(b'\t.type\t') and b'@function' in line:
            within = b'4arpc' in line.split(b',')[0]
        elif line.startswith(b'\t.file '):
            m = re.match(rb'\t\.file (\d+) "([^"]*)"(?: "([^"]*)")?', line)
            if m:
                path = m.group(2) if m.group(3) is None else (m.group(3) if m.group(3).startswith(b'/') else m.group(2) + b'/' + m.group(3))
                files[m.group(1)] = 1 if path.startswith(root) else 2 if b'/bits/shared_ptr' in path else 0
        elif b'call\t__sanitizer_cov_trace_pc' in line and not (ours == 1 or (ours == 2 and within)):
            continue
        out.append(line)
    sys.stdout.buffer.write(b''.join(out))


main()
