"""Feature code: what becomes of its lines."""
import re

STATEMENT = r"^([\t\s]*)(enum +)?(pos) +([\S]+) +([\S]+) +([\S]+.*)$"
START = r"\s*feature\s*([a-z0-9]{4})\s*\{"


def renamed_line(line):
    """a kerning statement with its classes under their UFO names, any other line as it is"""
    code, sep, comment = line.partition("#")
    m = re.search(STATEMENT, code)
    if not m:
        return line
    indent, enum, pos, left, right, value = m.groups()
    if left.startswith("@_"):
        left = "@public.kern1." + left[1:]
    if right.startswith("@_"):
        right = "@public.kern2." + right[1:]
    return f"{indent}{enum or ''}{pos} {left} {right} {value}{sep}{comment}"


def renamed(lines):
    return [renamed_line(x) for x in lines]


def begun(line):
    """does the line begin a feature -> its tag"""
    code, _, _ = line.partition("#")
    m = re.search(START, code)
    return m.group(1) if m else None


def split_on(state, line):
    """prefix, complete features, tag and lines of the current feature (None before the first)"""
    prefix, done, tag, current = state
    new = begun(line)
    if new is None:
        if current is None:
            return prefix + [line], done, tag, current
        return prefix, done, tag, current + [line]
    if current is not None:
        done = done + [{"tag": tag, "code": current}]
    return prefix, done, new, [line]


def split_result(state):
    prefix, done, tag, current = state
    if current is not None:
        done = done + [{"tag": tag, "code": current}]
    return {"prefix": prefix, "features": done}


def kept_line(state, line):
    """lines kept so far, number of empty lines at their end in the source"""
    lines, empty = state
    if line.strip():
        return lines + [line], 0
    if empty < 2:
        lines = lines + [line]
    return lines, empty + 1
