"""Writes the witness schemas in /verif/schemas: every branch of the templates
that a field, a compound type, an enum or a bitmask can take."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "schemas")

BUILTIN = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64",
           "varint16", "varint32", "varint64", "varint", "varuint16", "varuint32", "varuint64", "varuint", "varsize",
           "float16", "float32", "float64", "bool", "string", "bytes", "extern"]
BITS = ["bit:1", "bit:7", "bit:8", "bit:9", "bit:17", "bit:33", "bit:64", "int:2", "int:5", "int:12", "int:31", "int:64",
        "bit<len>", "int<len>"]
USER = ["Colour", "Level", "Flags", "Wide", "Point", "SubU8", "SubBits", "SubVar", "SubString", "SubPoint", "SubColour", "SubSub", "Pick(len)", "Either"]
ALL = BUILTIN + BITS + USER

PRELUDE = '''
enum uint8 Colour { RED, GREEN = 4, BLUE };
enum int:5 Level { LOW = -3, MID = 0, HIGH = 7 };
bitmask uint16 Flags { READ, WRITE, EXEC };
bitmask bit:11 Wide { W_ONE, W_TWO };
struct Point { int32 x; varint y; };
subtype uint8 SubU8;
subtype bit:13 SubBits;
subtype varuint32 SubVar;
subtype string SubString;
subtype Point SubPoint;
subtype Colour SubColour;
subtype SubU8 SubSub;
choice Pick(uint8 which) on which
{
    case 1: uint8 one;
    case 2: case 3: Point two;
    case 4: ;
    default: string other;
};
union Either { uint16 left; Point right; string text; };
'''

def ident(t):
    return "f" + "".join(c for c in t.title().replace(":", "Bits") if c.isalnum())

def fields(fmt, types=ALL):
    return "".join("    " + fmt.format(t=t, n=ident(t)) + "\n" for t in types)

def struct(name, body, params="(uint8 len)"):
    return "struct %s%s\n{\n%s};\n\n" % (name, params, body)

def write(name, text):
    with open(os.path.join(D, name + ".zs"), "w") as f:
        f.write("package %s;\n%s" % (name, text))

# every field form, plain and with alignment
forms = [
    ("Plain", "{t} {n};"),
    ("Optional", "optional {t} {n};"),
    ("Conditional", "{t} {n} if len > 2;"),
    ("Aligned", "align(16):\n    {t} {n};"),
    ("OptionalAligned", "align(8):\n    optional {t} {n};"),
    ("ConditionalAligned", "align(32):\n    {t} {n} if len > 2;"),
]
text = PRELUDE
for name, fmt in forms:
    text += struct(name, fields(fmt))
# the same structs as elements of a packed array
text += struct("Packed", "".join("    packed %s(len) a%s[];\n" % (n, n) for n, _ in forms))
write("wfields", text)

# builtin length expressions are only valid for bit fields; arrays of all types
arrays = [
    ("Auto", "{t} {n}[];"),
    ("Fixed", "{t} {n}[len];"),
    ("Const", "{t} {n}[3];"),
    ("PackedAuto", "packed {t} {n}[];"),
    ("PackedFixed", "packed {t} {n}[len];"),
    ("OptionalAuto", "optional {t} {n}[];"),
    ("OptionalPacked", "optional packed {t} {n}[];"),
    ("ConditionalAuto", "{t} {n}[] if len > 2;"),
    ("AlignedFixed", "align(8):\n    {t} {n}[len];"),
]
text = PRELUDE
for name, fmt in arrays:
    text += struct(name, fields(fmt))
text += struct("Packed", "".join("    packed %s(len) a%s[];\n" % (n, n) for n, _ in arrays))
write("warrays", text)

# every width, as a member and as an element
text = ""
text += "struct Members\n{\n%s};\n\n" % "".join("    %s:%d m%s%d;\n" % (t, n, t.title(), n) for t in ("bit", "int") for n in range(1, 65))
text += "struct Optionals\n{\n%s};\n\n" % "".join("    optional %s:%d m%s%d;\n" % (t, n, t.title(), n) for t in ("bit", "int") for n in range(1, 65))
text += "struct Elements\n{\n%s};\n\n" % "".join("    %s:%d m%s%d[];\n" % (t, n, t.title(), n) for t in ("bit", "int") for n in range(1, 65))
text += "struct Packed\n{\n    packed Members a[];\n    packed Optionals b[];\n    packed Elements c[];\n};\n"
write("wwidths", text)

# unions and choices over all types
text = PRELUDE
text += "union All(uint8 len)\n{\n%s};\n\n" % fields("{t} {n};")
text += "union AllArrays(uint8 len)\n{\n%s};\n\n" % fields("{t} {n}[];")
text += "union AllPacked(uint8 len)\n{\n%s};\n\n" % fields("packed {t} {n}[];")
cases = "".join("    case %d: %s %s;\n" % (i + 1, t, ident(t)) for i, t in enumerate(ALL))
text += "choice Select(uint16 sel, uint8 len) on sel\n{\n%s    default: varuint rest;\n};\n\n" % cases
cases = "".join("    case %d: case %d: %s %s[];\n" % (2 * i + 1, 2 * i + 2, t, ident(t)) for i, t in enumerate(ALL))
text += "choice SelectArrays(uint16 sel, uint8 len) on sel\n{\n%s};\n\n" % cases
text += '''choice ByColour(Colour c) on c
{
    case RED: uint8 red;
    case Colour.GREEN: string green;
    case BLUE: ;
};

choice OnlyDefault(uint8 c) on c
{
    default: int:7 always;
};

choice EmptyDefault(uint8 c) on c
{
    case 1: bit:3 one;
    case 2: uint8 list[];
    default: ;
};

struct Users(uint8 len)
{
    uint16 sel;
    Colour c;
    All(len) u;
    AllArrays(len) ua;
    AllPacked(len) up;
    Select(sel, len) s;
    SelectArrays(sel, len) sa;
    ByColour(c) bc;
    OnlyDefault(len) od;
    EmptyDefault(len) ed;
    optional Select(sel, len) os;
    Select(sel, len) ls[];
    packed All(len) pu[];
    packed Select(sel, len) ps[];
    packed OnlyDefault(len) pod[];
    packed EmptyDefault(len) ped[len];
};

struct Many
{
    packed Users(3) users[];
};
'''
write("wchoices", text)

# enums and bitmasks over all integer types
ints = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "bit:3", "bit:8", "bit:40", "int:6", "int:33",
        "varint16", "varint32", "varint64", "varint", "varuint16", "varuint32", "varuint64", "varuint", "varsize", "SubInt"]
text = "\nsubtype int:9 SubInt;\nsubtype uint32 SubMask;\n"
names = []
for t in ints:
    n = "E" + ident(t)[1:]
    names.append(n)
    text += "enum %s %s { %s_A, %s_B = 3, %s_C };\n" % (t, n, n.upper(), n.upper(), n.upper())
for t in ["uint8", "uint16", "uint32", "uint64", "bit:3", "bit:8", "bit:40", "varuint16", "varuint32", "varuint64", "varuint", "varsize", "SubMask"]:
    n = "M" + ident(t)[1:]
    names.append(n)
    text += "bitmask %s %s { A_ONE, B_TWO = 2, C_THREE };\n" % (t, n)
text += struct("Holder", "".join("    %s f%s;\n    optional %s o%s;\n    %s a%s[];\n    packed %s p%s[];\n" % (n, n, n, n, n, n, n, n) for n in names), "")
text += struct("Holders", "    packed Holder hs[];\n", "")
write("wenums", text)

# type parameters, nested compounds, subtypes of parameterised types and the index operator
write("wparams", '''
enum uint8 Kind { K_A, K_B };

struct Leaf(uint8 n, Kind k)
{
    bit<n> narrow;
    int<n + 1> wide;
    uint8 items[n];
    string text if k == Kind.K_A;
    optional varint extra;
};

subtype Leaf LeafAlias;

struct Mid(uint8 n)
{
    Kind kind;
    Leaf(n, kind) leaf;
    optional Leaf(n, kind) maybe;
    Leaf(n, kind) cond if n > 1;
    Leaf(n, kind) leaves[n];
    packed Leaf(n, kind) packedLeaves[];
    optional Leaf(n, kind) optLeaves[];
};

struct Top
{
    uint8 count;
    uint8 sizes[count];
    Mid(count) mid;
    Mid(count) mids[];
    packed Mid(count) packedMids[count];
    Leaf(sizes[@index], Kind.K_B) indexed[count];
};

struct Empty
{
};

struct HasEmpty
{
    Empty e;
    optional Empty oe;
    Empty es[];
    packed Empty pes[];
    bool last;
};

struct Computed
{
    uint8 a;
    int16 b;
    uint8 dyn[a + 2];
    bit<(a % 8) + 1> w if a > 0 && b != 3;
    Flag maybe;
    Kind kind;
    uint16 late if isset(maybe, Flag.F_ONE) || valueof(kind) == 1;
};

bitmask uint8 Flag { F_ONE, F_TWO };
''')

# items that refer to the items of other types, and members of choices in expressions
write("wrefs", '''

enum uint16 Late { L_FIRST = Color.GREEN, L_SECOND, L_THIRD = Color.BLUE + 4, L_LAST = Wide.W_C + 1 };
enum uint8 Color { RED = 1, GREEN = 5, BLUE };
enum uint32 Wide { W_A = LIMIT, W_B, W_C = LIMIT * 4, W_D };
const uint16 LIMIT = BASE + 2;
const uint16 BASE = 40;
bitmask uint16 Sums { S_READ = Perm.READ, S_BOTH = Perm.WRITE | Perm.READ, S_ALL = Perm.EXEC | Perm.WRITE | Perm.READ, S_WRITE = Perm.WRITE };
bitmask uint8 Perm { NONE = 000b, READ = 010b, WRITE = 100b, EXEC };
subtype Perm Alias;
bitmask uint8 Again { G_EXEC = Alias.EXEC, G_READ = Sums.S_READ, G_SHIFT = 1 << 6 };
subtype Color Shade;
enum uint8 Shades { H_A = Shade.GREEN, H_B = Shade.RED + 1, H_C = Shade.BLUE + Color.GREEN };
const uint8 GREENISH = BASE > 3 ? 9 : 2;
const Color FAVOURITE = Color.BLUE;
const Perm USUAL = Perm.WRITE;
const uint8 V_GREEN = valueof(Color.GREEN);
const uint8 V_EXEC = valueof(Perm.EXEC) << 1;
const uint16 V_SUM = valueof(Color.BLUE) * valueof(Perm.WRITE) + Color.GREEN;
const uint8 V_CMP = Color.BLUE < Color.GREEN ? 3 : 4;
const bool V_EQ = Color.BLUE == Color.GREEN;
const uint8 V_SHIFT = 1 << Color.GREEN;

choice Ch(uint8 t) on t { case 1: uint8 a; case 2: uint16 b; default: uint32 c; };
choice Deep(uint8 t) on t { case 1: Inner in; case 2: Ch(t) ch; default: uint8 n; };
struct Inner { uint8 a; uint8 b; function uint8 sum() { return a + b; } };

struct Uses
{
    uint8 t;
    Ch(t) ch;
    Inner in;
    Deep(t) deep;
    uint8 l1 if t == 1 && ch.a > 3;
    uint8 l2 if t == 2 && ch.b > 300;
    uint8 l3 if in.b > 3 || in.a == 1;
    uint8 l4[in.a];
    uint8 l5 if t == 1 && deep.in.b > 2;
    uint8 l6 if t == 2 && deep.ch.b == 2;
    uint8 l7[in.sum()];
};

struct WithItems
{
    Late late;
    Sums sums;
    Shade shade;
    uint8 m1 if late == Late.L_THIRD;
    uint8 m2 if shade == Shade.GREEN;
    uint8 m3 if isset(sums, Sums.S_BOTH);
    Perm perm;
    uint8 m14 if isset(perm, Alias.EXEC) || perm == Alias.READ;
    uint8 m4 if (sums & Sums.S_WRITE) == Sums.S_WRITE;
    uint8 m5 if shade == FAVOURITE;
    uint8 m6[GREENISH];
    uint8 m7[Color.GREEN];
    uint8 plain;
    uint8 m8 if plain == Color.GREEN + 1;
    uint8 m9 if (plain & Color.BLUE) == valueof(Perm.WRITE);
    uint8 m10 = Color.BLUE;
    Color m11 = Color.BLUE;
    Perm m12 = Perm.EXEC;
    bit<Color.GREEN> m13;
    function uint8 next() { return Color.BLUE + 1; }
    function Perm mask() { return Perm.EXEC; }
    function Color hue() { return Color.BLUE; }
};
''')

# wpairs: every pair of operand types in one operation, and in a ternary operator
PAIR = ["uint8", "uint32", "uint64", "int8", "int32", "int64", "bit:3", "bit:17", "bit:33", "int:5", "int:40", "bit<n>", "int<n>", "varuint16", "varuint32", "varuint", "varint32", "varint"]
FLT = ["float16", "float32", "float64", "uint8", "int64"]
out = ["struct Pairs", "{", "    uint8 n;"]
for i, t in enumerate(PAIR):
    out.append("    %s i%d;" % (t, i))
for i, t in enumerate(FLT):
    out.append("    %s f%d;" % (t, i))
for i in range(len(PAIR)):
    for j in range(len(PAIR)):
        out.append("    function uint64 add%c%c() { return i%d + i%d; }" % (65 + i, 65 + j, i, j))
        out.append("    function uint64 and%c%c() { return i%d & i%d; }" % (65 + i, 65 + j, i, j))
        out.append("    function bool less%c%c() { return i%d < i%d; }" % (65 + i, 65 + j, i, j))
        out.append("    function uint64 pick%c%c() { return n > 3 ? i%d : i%d; }" % (65 + i, 65 + j, i, j))
for i in range(len(FLT)):
    for j in range(len(FLT)):
        if i < 3 or j < 3:
            out.append("    function float64 mul%c%c() { return f%d * f%d; }" % (65 + i, 65 + j, i, j))
out += ["};", ""]
write("wpairs", "\n".join(out))
