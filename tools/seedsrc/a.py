SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                      demo="from dissect.cstruct import cstruct\nimport io, struct\n" + demo))


seed("c01-pointer-wraps", "C01", [("types/pointer.py", "return cls.cs.pointer._write(stream, data)",
     "return cls.cs.pointer._write(stream, data & ((1 << cls.size * 8) - 1))")],
     "a pointer value outside the configured width, e.g. from pointer arithmetic",
     "dumping a pointer whose value does not fit wraps it silently instead of raising",
     '''
cs = cstruct(pointer="uint16").load("struct t { uint8 *p; };")
try:
    cs.t(p=0x12345).dumps()
except Exception:
    raise SystemExit(0)
raise SystemExit("silently truncated")
''')

seed("c03-double-padding", "C03", [("compiler.py", "            yield None, drift, \"x\"\n            imaginary_offset += drift\n", "            yield None, drift, \"x\"\n")],
     "an aligned, compiled structure with a block of fields of unknown offset (after a dynamic field) that needs padding twice",
     "the compiled reader mistakes the position of fields after the second padding of such a block",
     '''
d = "struct t { uint8 n; char a[n]; uint32 a1; uint8 b; uint16 c; uint8 d; uint32 e; };"
data = bytes([3]) + b"abc" + bytes(range(1, 60))
r = []
for c in (True, False):
    cs = cstruct().load(d, compiled=c, align=True)
    fh = io.BytesIO(data)
    r.append((repr(cs.t(fh)), fh.tell()))
assert r[0] == r[1], r
''')

seed("c04-empty-array-alignment", "C04", [("types/structure.py", "            alignment = max(alignment, field.alignment)\n\n            if field.bits:",
     "            if field.type.size != 0:\n                alignment = max(alignment, field.alignment)\n\n            if field.bits:")],
     "an aligned structure in which the member of the largest alignment is an array of zero elements",
     "a zero-length array no longer contributes its element alignment to the structure (alignment and tail padding are wrong)",
     '''
cs = cstruct().load("struct t { uint8 a; uint32 e[0]; uint8 b; }; struct o { uint8 x; t y; uint8 z; };", align=True)
assert len(cs.t) == 8 and cs.t.alignment == 4, (len(cs.t), cs.t.alignment)
assert len(cs.o) == 16
''')

seed("c05-bits-endian-compiled", "C05", [("compiler.py", 'preamble += "bit_reader = BitBuffer(stream, cls.cs.endian)\\n"',
      'preamble += f"bit_reader = BitBuffer(stream, {self.cs.endian!r})\\n"')],
     "changing cs.endian after a structure with bit-fields was compiled",
     "compiled structures keep splitting storage units in the byte order of the moment of compilation",
     '''
cs = cstruct(endian="<").load("struct t { uint16 a:4; uint16 b:12; };", compiled=True)
cs.endian = ">"
o = cs.t(b"\\x12\\x34")
assert (o.a, o.b) == (1, 0x234), o
''')

seed("c06-same-size-types-share", "C06", [("bitbuffer.py", "        if self._remaining == 0 or self._type != field_type:\n            if field_type.size is None:\n                raise ValueError(\"Reading",
      "        if self._remaining == 0 or self._type.size != field_type.size:\n            if field_type.size is None:\n                raise ValueError(\"Reading")],
     "adjacent bit-fields of different storage types of the same size, the first unit not exhausted",
     "the second field is read from the storage unit of the first",
     '''
cs = cstruct().load("struct t { uint16 a:4; int16 b:4; };", compiled=False)
o = cs.t(b"\\x21\\x43\\x65\\x87")
assert (o.a, o.b) == (1, 5), o
''')

seed("c07-negative-length", "C07", [("types/base.py", "num = max(0, cls.num_entries.evaluate(context))", "num = cls.num_entries.evaluate(context)")],
     "an array whose length expression is negative",
     "a negative length is not clamped to zero",
     '''
cs = cstruct().load("struct t { uint8 n; char a[n - 4]; };")
o = cs.t(b"\\x02abcdef")
assert o.a == b"", o
cs = cstruct().load("struct t { uint8 n; uint16 a[n - 4]; };")
assert len(cs.t(b"\\x02abcdef").a) == 0
''')

seed("c08-unterminated-string", "C08", [("types/char.py", "            if byte == b\"\":\n                raise EOFError", "            if byte == b\"\" and not buf:\n                raise EOFError"),
      ("types/char.py", "            if byte == b\"\\x00\":\n                break", "            if byte in (b\"\\x00\", b\"\"):\n                break")],
     "input that ends inside a null-terminated character array, after at least one character",
     "a string without its terminator is accepted as if it had one",
     '''
cs = cstruct().load("struct t { uint8 a; char s[]; };")
try:
    print(cs.t(b"\\x01abc"))
except EOFError:
    raise SystemExit(0)
raise SystemExit("no error")
''')

seed("c09-odd-char-struct", "C09", [("types/structure.py", "            and len(args[0]) == cls.__fields__[0].type.size\n", "            and len(args[0]) >= (cls.__fields__[0].type.size or 0)\n")],
     "a structure of a single char array called with more bytes than it needs",
     "T(bytes) takes all bytes given while T(stream), T.read and cs.read take the first n",
     '''
cs = cstruct().load("struct t { char a[4]; };")
assert cs.t(b"abcdefgh").a == cs.t(io.BytesIO(b"abcdefgh")).a == b"abcd", cs.t(b"abcdefgh")
''')

seed("c10-shift-right-binds-tighter", "C10", [("expression.py", '        ">>": 3,\n        "+": 4,\n        "-": 4,', '        ">>": 4,\n        "+": 4,\n        "-": 4,')],
     "an expression with >> followed by + or - (or << before >>) without parentheses",
     ">> gets the precedence of + and -",
     '''
from dissect.cstruct.expression import Expression
assert Expression(cstruct(), "256 >> 1 + 2").evaluate() == 32
''')

seed("c12-flag-next", "C12", [("parser.py", "                if enumtype == \"flag\":\n                    high_bit = val.bit_length() - 1\n                    nextval = 2 ** (high_bit + 1)\n                else:\n                    nextval = val + 1\n\n                values[key] = val\n\n        if not d[\"type\"]:",
       "                if enumtype == \"flag\":\n                    nextval = max(nextval, 2 ** val.bit_length())\n                else:\n                    nextval = val + 1\n\n                values[key] = val\n\n        if not d[\"type\"]:")],
     "a flag whose explicit values are not ascending",
     "a member without a value continues from the highest member so far instead of from the previous one",
     '''
cs = cstruct().load("flag F { A = 0x10, B = 1, C, D = 4 };")
assert cs.F.C.value == 2, cs.F.C.value
''')

seed("c14-shared-typedefs", "C14", [("cstruct.py", "        attrs = attrs or {}\n        attrs.update(\n            {", "        attrs = {} if attrs is None else attrs\n        attrs.update(\n            {"),
     ("types/structure.py", "        if (fields := classdict.pop(\"fields\", None)) is not None:\n            metacls", "        if (fields := classdict.pop(\"fields\", None)) is not None:\n            metacls")],
     "-", "-", "raise SystemExit(1)")

seed("c16-wchar-pointer", "C16", [("types/pointer.py", "            if issubclass(self.type, Char):\n", "            if issubclass(self.type, (Char, Wchar)):\n"),
     ("types/pointer.py", "from dissect.cstruct.types.char import Char\n", "from dissect.cstruct.types.char import Char\nfrom dissect.cstruct.types.wchar import Wchar\n")],
     "dereferencing a pointer to wchar",
     "a wchar pointer returns a string up to a NUL instead of what parsing wchar there returns, and fails if there is no NUL",
     '''
cs = cstruct(pointer="uint8").load("struct t { wchar *p; };")
o = cs.t(b"\\x01a\\x00b\\x00")
assert o.p.dereference() == "a", o.p.dereference()
''')

seed("c17-same-name-equal", "C17", [("types/structure.py", "        if self.__class__ is other.__class__:\n            return (", "        if self.__class__.__name__ == other.__class__.__name__:\n            return (")],
     "comparing instances of two structures of the same name (and fields) of different cstruct objects",
     "instances of different structure types are equal",
     '''
a = cstruct().load("struct t { uint8 a; };").t(a=1)
b = cstruct().load("struct t { uint8 a; };").t(a=1)
assert a != b and not a == b
''')

seed("c18-batch-not-recompiled", "C18", [("types/structure.py", "        if cls.__compiled__:\n            # If the previous", "        if cls.__compiled__ and not cls.__updating__:\n            # If the previous")],
     "fields added to a compiled structure in a start_update() batch",
     "the compiled reader from before the batch stays in place",
     '''
cs = cstruct().load("struct t { uint8 a; };", compiled=True)
with cs.t.start_update():
    cs.t.add_field("b", cs.uint16)
    cs.t.add_field("c", cs.uint8)
o = cs.t(b"\\x01\\x02\\x03\\x04")
assert (o.a, o.b, o.c) == (1, 0x302, 4), o
''')

seed("c19-hexdump-palette-row", "C19", [("utils.py", "                remaining -= 1\n                if remaining == 0:\n", "                remaining -= 1\n                if remaining == 0 and j != 15:\n")],
     "a palette entry that ends exactly at the end of a line",
     "the colour of the entry runs on into all following lines",
     '''
from dissect.cstruct import utils
a = utils.hexdump(bytes(range(40)), palette=[(16, "R"), (16, "G"), (8, "B")], output="string")
assert a.splitlines()[1].count("G") and not "R" in a.splitlines()[1], a
''')

seed("c20-alias-prefix", "C20", [("tools/stubgen.py", '        return f"{module_prefix}Array[{generate_typehint(type_.type, prefix, module_prefix)}]"', '        return f"{module_prefix}Array[{generate_typehint(type_.type, module_prefix=module_prefix)}]"')],
     "an array of a type of the cstruct object, in a structure",
     "the type hint of the array names its element type without the class it is declared in",
     '''
from dissect.cstruct.tools.stubgen import generate_cstruct_stub
cs = cstruct().load("struct a { uint8 x; }; struct t { a b[2]; };")
s = generate_cstruct_stub(cs)
assert "Array[cstruct.a]" in s, s
''')

SEEDS = [s for s in SEEDS if s["needs"] != "-"]
