"""C17: layout, comments, names, declaration order and division into files do not change a program."""
import re
from vlib.engine import Reject
from props import mix

QUICK, THOROUGH = 1200, 15000
RULE = ("a case is a random program of one of the properties C01 to C12 whose text is changed in one to four ways: other white "
        "space and comments between any two tokens (also none where the tokens stay apart), all names of the program "
        "replaced one-to-one by others (of 1 to 120 characters, close to keywords, differing in case only), types and members "
        "declared in another order, types divided into up to four files of one project or solution. The output has to be that of the "
        "reference model for the unchanged program. Non-trivial: the program is non-trivial for its own property")
ASSUME = ["form feeds and vertical tabs are not generated (recorded finding)"]

TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|@"(?:[^"]|"")*"|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])+'|"""
                 r"""(?:0[xX][0-9a-fA-F]+|0[bB][01]+|\d[\d']*(?:\.\d*)?(?:[eE][+-]?\d+)?)[a-zA-Z]*|[A-Za-z_]\w*|"""
                 r"""<<=|>>=|\+\+|--|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|\?\?|=>|<<|>>|.""", re.S)
SKIP = re.compile(r"\s+|//|/\*")
WORD = re.compile(r"[A-Za-z_0-9]")

RESERVED = set("""import using class struct interface enum namespace public private protected internal static const readonly
virtual override abstract sealed new this base null true false void bool byte sbyte short ushort int uint long ulong
char float double decimal string object if else while do for foreach in break continue return switch case default try catch finally throw
is as typeof sizeof ref out params get set value var where delegate event operator implicit explicit extern goto loop until
checked unchecked lock fixed unsafe volatile partial yield add remove typedef stackalloc
System Console Write WriteLine Math Exception Message InnerException Object String Array Length Rank GetLength Delegate Invoke
EntryPoint ToString GetType Equals GetHashCode DateTime Diagnostics Trace Assert Abs Max Min Sqrt Pow Sin Cos Tan Exp Log Floor
Ceil Round Ceiling Int32 Int64 Int16 Int8 UInt8 SByte Byte UInt16 UInt32 UInt64 Boolean Char Single Double Void ValueType Enum Type
OutOfRangeException InvalidCastException Reflection Internal Attribute Tuple Interface Tick Ticks Now""".split())


def tokens(text):
    return [t for t in TOK.findall(text) if not SKIP.match(t)]


def apart(a, b):
    """Whether the two tokens stay two tokens when nothing stands between them."""
    x, y = a[-1], b[0]
    if WORD.match(x) and (WORD.match(y) or y in "'\"@."):
        return False
    if x in "'\"" and (WORD.match(y) or y in "'\"") or x == "." and WORD.match(y) and y.isdigit():
        return False
    if x in "+-*/%&|^<>=!?:~@" and y in "+-*/%&|^<>=!?:~@":
        return False
    return True


def comment(s):
    k = s.draw(7)
    body = s.choice(["", "x", " int a = 1; ", "*", "**", " \" ", " ' ", "// ", " if (", "}", "#", "\\", "0x", " a\n b ", "@\""])
    if k < 5:
        return "/*" + body + "*/"
    return "//" + body.replace("\n", " ").rstrip("\\") + "\n"


def relayout(s, text):
    toks = tokens(text)
    style = s.draw(4)
    nl = s.choice(["\n", "\n", "\r\n"])
    out = []
    for k, t in enumerate(toks):
        if k:
            p = toks[k - 1]
            if p == "-" and t.startswith(("2147483648", "9223372036854775808")):
                out.append(t)                               # the sign is part of such a literal (recorded finding)
                continue
            if style == 0:                                  # as tight as possible
                out.append("" if apart(p, t) else " ")
            elif style == 1:                                # one token per line
                out.append(nl)
            else:
                w = ""
                if not apart(p, t) or s.p(50):
                    w = s.choice([" ", " ", "  ", "\t", nl, nl + nl, " " + nl + "\t ", " " * 40])
                if style == 3 and s.p(25):
                    w += comment(s) + s.choice(["", " ", nl])
                    if p == "/":                            # not a comment of another kind
                        w = " " + w
                out.append(w)
        out.append(t)
    if style == 3:
        out.insert(0, comment(s) if s.p(40) else "")
        out.append(s.choice(["", " ", "// end", "/* end */", nl]))
    else:
        out.append(s.choice(["", nl]))
    s.tag("layout %d" % style)
    return "".join(out)


STEMS = ["a", "b", "A", "B", "x", "_", "__", "_a", "l", "I", "O0", "ifx", "int1", "Int", "classA", "forx", "isx", "asx", "news", "newx",
         "iff", "doo", "whil", "tru", "nul", "getx", "sett", "Value", "Get", "Set", "This", "Base", "outx", "refx", "inx", "e1", "E10", "f",
         "d", "L", "UL", "x0", "u8", "nullx", "trueb", "returnx", "stringy", "objects", "switchx", "casex", "Abc", "aBc", "ABC", "abc"]


def rename(s, text):
    """Every name of the program is replaced, one to one."""
    toks = TOK.findall(text)
    names = []
    seen = set()
    for t in toks:
        if re.match(r"[A-Za-z_]\w*$", t) and t not in RESERVED and t not in seen:
            seen.add(t)
            names.append(t)
    used = set(RESERVED)
    new = {}
    style = s.draw(4)
    for n in names:
        for _ in range(50):
            if style == 0:
                r = s.choice(STEMS) + (str(s.i(0, 99)) if s.p(60) else "")
            elif style == 1:                                # neighbours that differ in one character
                r = "n" + "".join(s.choice("aAbB_") for _ in range(s.i(1, 6)))
            elif style == 2:
                r = "q" * s.i(1, 100) + str(s.i(0, 999))
            else:
                r = s.choice(names)                         # a permutation
            if r not in used:
                break
        else:
            r = "z%d_" % len(new)
            while r in used:
                r += "_"
        used.add(r)
        new[n] = r
    s.tag("names %d" % style)
    return "".join(new.get(t, t) for t in toks)


def declarations(text):
    """(head, [top-level declarations]); a declaration ends with the brace or semicolon at depth 0."""
    toks = TOK.findall(text)
    head, k = [], 0
    decls, cur, depth = [], [], 0
    for t in toks:
        if not cur and SKIP.match(t):
            continue
        cur.append(t)
        if t in "{([":
            depth += 1
        elif t in "})]":
            depth -= 1
        if depth == 0 and t in (";", "}"):
            d = "".join(cur)
            if cur[0] in ("import", "using"):
                head.append(d)
            else:
                if t == "}" and d.startswith("="):
                    raise Reject()
                decls.append(d)
            cur = []
    if cur:
        raise Reject()
    return head, decls


TYPEDECL = re.compile(r"^((?:(?:public|abstract|sealed|static|partial)\s+)*)(class|struct|interface)\b")


def members(s, decl):
    """The members of a class, struct or interface in another order; fields keep theirs."""
    if not TYPEDECL.match(decl):
        return decl
    i = decl.index("{")
    body = decl[i + 1:decl.rindex("}")]
    try:
        _, ms = declarations(body)
    except Reject:
        return decl
    # an array initialiser or property would be cut in two: keep such types as they are
    if any(re.match(r"^\s*[=;]", m) for m in ms):
        return decl
    fields = [m for m in ms if m.rstrip().endswith(";")]
    others = [m for m in ms if not m.rstrip().endswith(";")]
    if TYPEDECL.match(decl).group(2) == "interface":
        ms = s.shuffle(ms)
    else:
        others = s.shuffle(others)
        ms = []
        while fields or others:
            if fields and (not others or s.p(50)):
                ms.append(fields.pop(0))
            else:
                ms.append(others.pop(0))
    return decl[:i + 1] + "\n" + "\n".join(ms) + "\n}"


SOL = "<solution><name>S</name><projects><project><path>P/P.project</path></project></projects></solution>"
PRJ = "<project><name>P</name><files><file><path>*.cs</path></file></files></project>"


def gen(s):
    name, text, out, c = mix.draw(s)
    k = s.draw(16)
    done = 0
    if k & 1:
        text = rename(s, text)
        done += 1
    files = [text]
    if k & 2 or k & 4:
        head, decls = declarations(text)
        if k & 2:
            decls = [members(s, d) for d in s.shuffle(decls)]
            s.tag("order")
            done += 1
        parts = [decls]
        if k & 4 and len(decls) > 1:
            n = s.i(2, min(4, len(decls)))
            parts = [[] for _ in range(n)]
            for j, d in enumerate(decls):
                parts[j if j < n else s.draw(n)].append(d)
            s.tag("files")
            done += 1
        files = ["\n".join(head) + "\n\n" + "\n\n".join(p) + "\n" for p in parts]
    if k & 8 or not done:
        files = [relayout(s, f) for f in files]
    fs = {"P/%s.cs" % "abcd"[j]: f for j, f in enumerate(files)}
    if s.p(50):
        argv = ["@april", "run"] + (list(fs) if s.p(60) else s.shuffle(list(fs))) + ["@sys"]
    else:
        fs["S.solution"], fs["P/P.project"] = SOL, PRJ
        argv = ["@april", "run", "S.solution", "@sys"]
    return {"files": fs, "steps": [{"argv": argv, "rc": 0, "out": out}], "units": c["units"], "nontrivial": c["nontrivial"]}
