"""Command lines."""


def words(s):
    """how the shell splits a command line; '"' quotes"""
    out, cur, quoted = [], None, False
    for c in s:
        if c == '"':
            quoted = not quoted
            cur = "" if cur is None else cur
        elif not quoted and (c == " " or c == "\n" or c == "\t"):
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = c if cur is None else cur + c
    if cur is not None:
        out.append(cur)
    return out
