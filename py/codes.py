"""Entering recovery codes: what the dialogue has to do with given lines, ways of typing a code."""
import ref
from cli import P_CODE

P_EXTRA = b"Ignore the extra data and decode the recovery code?"
M_MORE = "Line accepted. The recovery code is still incomplete, please enter more data.\n\n"
M_BAD = "The data you entered doesn't seem valid, please try again.\n\n"


def accepted(text):
    return "The following lines were accepted:\n%s\nThe line after that doesn't seem valid, a typo maybe?\n\n" % punctuated(text)


def punctuated(t):
    return "\n".join(ref.fmt_line(t[i:i + 24]) if len(t[i:i + 24]) == 24 else short(t[i:i + 24]) for i in range(0, len(t), 24))


def short(t):
    q = [t[i:i + 4] for i in range(0, len(t), 4)]
    return "-".join(q[:3]) + (":" + "-".join(q[3:]) if len(q) > 3 else "")


def simulate(lines, answers, primary):
    """-> dialogue [(prompt, reply)], stderr, outcome: ("value", text) / ("abort",) / ("error", kind) / ("open",).
    answers: what to reply when asked about extra data. Lines are what is typed, without the newline."""
    have = ""
    dlg, err = [], ""
    for ln in lines:
        dlg.append((P_CODE, ln))
        if ln.strip() == "":
            return dlg, err, ("abort",)
        t = ref.canonical(have + ln)
        try:
            ref.parse_code(t)
        except ref.CodeError as e:
            if e.kind == "incomplete":
                have = t
                err += M_MORE
                continue
            if e.kind == "mismatch":
                have = t[:24 * e.line]
                err += accepted(have) if have else M_BAD
                continue
            assert e.kind == "extra"
            t = t[:24 * e.line]
            yes = None
            for a in answers:
                dlg.append((P_EXTRA, a))
                a = a.strip().lower()
                if a in ("y", "yes", ""):
                    yes = True
                    break
                if a in ("n", "no"):
                    yes = False
                    break
            if yes is None:
                return dlg, err, ("open",)
            if not yes:
                return dlg, err, ("abort",)
        try:
            return dlg, err, ("value", ref.read_code(t, primary))
        except ref.CodeError as e:
            return dlg, err, ("error", e.kind)
        except UnicodeDecodeError:
            return dlg, err, ("error", "utf8")
    return dlg, err, ("open",)


OUTSIDE = [chr(c) for c in range(32, 127) if not chr(c).isalnum()]
NOISE = OUTSIDE + ["-", ":", " ", "  ", "\t", ".", "_", "/", "1", "0", "I", "O", "i", "o", "ä", "\u017f", "\u212a", "–", "😀", "\\", "'", "\""]


def retype(rng, code):
    """Lines, as a user might type the code: complete and without mistakes."""
    k = rng.randrange(9)
    lines = code.split("\n")
    if k == 0:
        return lines
    if k == 1:
        return ["".join(lines)]
    if k == 2:
        return [x.lower() for x in lines]
    if k == 3:
        return ["".join(c for c in x if c.isalnum()) for x in lines]
    if k == 4:  # other line breaks
        t = ref.canonical(code)
        out = []
        while t:
            n = rng.randint(1, 60)
            out.append(t[:n])
            t = t[n:]
        return out
    if k == 5:  # noise the format ignores
        def noisy(x):
            return "".join(c + (rng.choice(NOISE) if rng.random() < .2 else "") for c in x)
        out = [noisy(x) for x in lines]
        if rng.random() < .5:
            out.insert(rng.randrange(len(out)), rng.choice(["...", "-", "10"]))
        return out
    if k == 6:
        return ["   " + x.swapcase() + "\t " for x in lines]
    if k == 7:
        return [" ".join(lines[:len(lines) // 2]), " ".join(lines[len(lines) // 2:])]
    return [x.title() for x in lines]
