SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                      demo="from dissect.cstruct import cstruct\nimport io, struct\n" + demo))


seed("c08-partial-leb", "C08", [("types/leb128.py", '            if b == b"":\n                raise EOFError', '            if b == b"" and shift == 0:\n                raise EOFError'),
     ("types/leb128.py", "            b = ord(b)\n", "            b = ord(b or b\"\\x00\")\n")],
     "input that ends in the middle of a LEB128 number",
     "a truncated LEB128 number is taken as if it were complete",
     '''
cs = cstruct().load("struct t { uint8 a; uleb128 s; };")
try:
    print(cs.t(b"\\x01\\x85"))
except EOFError:
    raise SystemExit(0)
raise SystemExit("no error")
''')

seed("c09-seek-from-zero", "C09", [("types/structure.py", "                # Field is at a specific offset, either alligned or added that way\n                offset = struct_start + field.offset\n                stream.seek(offset)",
     "                # Field is at a specific offset, either alligned or added that way\n                stream.seek(field.offset - (offset - struct_start), io.SEEK_CUR)\n                offset = max(offset, field.offset)")],
     "an interpreted aligned structure with padding, parsed from a stream at another position than 0",
     "recorded sizes: the offset of a padded field is mistaken, so its recorded size depends on the stream position",
     '''
cs = cstruct().load("struct t { uint8 a; uint32 b; };", compiled=False, align=True)
fh = io.BytesIO(bytes(16) + bytes(range(8)))
fh.seek(16)
o = cs.t(fh)
assert o._sizes == cs.t(bytes(range(8)))._sizes, o._sizes
''')

seed("c17-hash-class", "C17", [("types/structure.py", "    def __bool__(self):\n        return any([{vals}])\n", "    def __bool__(self):\n        return any([{vals}]) if not hasattr(self, '_buf') else True\n")],
     "-", "-", "raise SystemExit(1)")

seed("c17-write-falsy", "C17", [("types/structure.py", "            value = getattr(data, field._name, None)\n            if value is None:", "            value = getattr(data, field._name, None)\n            if not value:")],
     "a field whose value is false without being its zero value: -0.0",
     "a negative zero is dumped as positive zero",
     '''
cs = cstruct().load("struct t { uint8 a; float b; };")
o = cs.t()
o.b = -0.0
assert o.dumps() == b"\\x00\\x00\\x00\\x00\\x80", o.dumps()
''')

seed("c20-alias-unprefixed", "C20", [("tools/stubgen.py", '        return f"{module_prefix}Pointer[{generate_typehint(type_.type, prefix, module_prefix)}]"', '        return f"{module_prefix}Pointer[{generate_typehint(type_.type, module_prefix=module_prefix)}]"')],
     "a pointer field in a structure",
     "the type hint of a pointer names its target without the class it is declared in",
     '''
from dissect.cstruct.tools.stubgen import generate_cstruct_stub
cs = cstruct().load("struct a { uint8 x; }; struct t { a *b; };")
s = generate_cstruct_stub(cs)
assert "Pointer[cstruct.a]" in s, s
''')

seed("c11-first-member-wins", "C11", [("types/structure.py", "            size += -size & (alignment - 1)\n\n        return size, alignment\n\n    def _read_fields", "            size += -size & (alignment - 1)\n\n        return size, min(alignment, size or 1)\n\n    def _read_fields")],
     "-", "-", "raise SystemExit(1)")

seed("c11-kwargs-order", "C11", [("types/structure.py", "        setattr(self.__target__, attr, value)\n        self.__union__._rebuild(self.__attr__)", "        if getattr(self.__target__, attr) != value:\n            setattr(self.__target__, attr, value)\n            self.__union__._rebuild(self.__attr__)")],
     "assigning -0.0 to a float of a structure in a union that holds 0.0",
     "an assignment of a value that compares equal to the old one but has another encoding is dropped",
     '''
cs = cstruct().load("struct s { float a; uint8 b; }; union t { s x; char raw[5]; };")
o = cs.t(bytes(5))
o.x.a = -0.0
assert o.raw == b"\\x00\\x00\\x00\\x80\\x00", o.raw
''')

seed("c02-wchar-strip", "C02", [("types/wchar.py", "        return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]))", "        return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]).lstrip(\"\\ufeff\") if count == EOF else data.decode(cls.__encoding_map__[cls.cs.endian]))")],
     "a to-end-of-stream wchar array whose content starts with U+FEFF",
     "a byte order mark at the start of a wchar array up to the end of the stream is lost",
     '''
cs = cstruct().load("struct t { uint8 a; wchar s[EOF]; };")
d = b"\\x01\\xff\\xfeA\\x00"
assert cs.t(d).dumps() == d, cs.t(d).dumps()
''')

seed("c02-flag-unknown-bits", "C02", [("types/enum.py", "    def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:\n        return list(map(cls, ", "    def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:\n        return list(map(lambda v: cls(v) if v in cls._value2member_map_ else cls(cls.type(v & ((1 << (cls.size * 8 - 1)) - 1))), ")],
     "an array of enums with a value that has the top bit set and names no member",
     "the top bit of unknown enum values in arrays is lost",
     '''
cs = cstruct().load("enum E : uint8 { A = 1, B = 0x81 }; struct t { E a[3]; };")
d = b"\\x01\\x81\\x82"
assert cs.t(d).dumps() == d, cs.t(d).dumps()
''')

seed("c13-comment-quote", "C13", [("parser.py", "regex = re.compile(pattern, re.MULTILINE | re.DOTALL)", "regex = re.compile(pattern, re.MULTILINE)"),
    ("parser.py", r'''pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*$)"''', r'''pattern = r"(\".*?\"|\'.*?\')|(/\*(?:.|\n)*?\*/|//[^\r\n]*$)"''')],
     "-", "-", "raise SystemExit(1)")

seed("c13-pointer-space", "C13", [("parser.py", '''        TOK.add(r"(?P<name>\\**?\\s*[a-zA-Z0-9_]+)(?:\\s*:''', '''        TOK.add(r"(?P<name>\\**?\\s?[a-zA-Z0-9_]+)(?:\\s*:''')],
     "more than one whitespace character between * and the name of a pointer field",
     "such a definition is rejected",
     '''
cs = cstruct().load("struct t { uint8 *\\n  a; };")
assert len(cs.t) == cs.pointer.size
''')
SEEDS = [s for s in SEEDS if s["needs"] != "-"]
