# Types used to exercise the runtime and its declaration macros.
# Syntax: thrift, with the pointer types the macro accepts; "alias NAME = rust type".
alias LI = Vec<i32>;
alias LLB = Vec<Vec<bool>>;
alias LS = Vec<String>;
enum Color { RED = 0; GREEN = 1; BLUE = 2; NEG = -5; BIG = 2147483647; MIN = -2147483648; HEX = 64; }
struct Empty {}
struct Scalars {
 1: required bool b; 2: required byte by; 3: required i16 s; 4: required i32 i; 5: required i64 l;
 6: required double d; 7: required string st; 8: required binary bi; 9: required Color c; 10: required i8 sb;
}
struct OptScalars {
 1: optional bool b; 2: optional byte by; 3: optional i16 s; 4: optional i32 i; 5: optional i64 l;
 6: optional double d; 7: optional string st; 8: optional binary bi; 9: optional Color c; 10: optional i8 sb;
}
struct Gaps { 1: required i32 a; 16: optional i32 b; 32: optional bool c; 33: required bool d; 49: optional string e; 300: required i16 f; 32767: optional i64 g; }
struct Desc { 5: required i32 e; 4: optional bool d; 3: required string c; 2: optional Inner b; 1: required bool a; }
struct Odd { 0: optional i32 zero; -1: required bool neg; -32768: optional i32 min; 32767: required i32 max; 1: optional bool one; -15: optional bool m15; 2: required Inner in2; }
struct Bools { 1: required bool a; 2: optional bool b; 3: required bool c; 20: optional bool d; -3: optional bool e; }
struct Lists {
 1: required list<bool> lb; 2: required list<byte> lby; 3: required list<i16> ls; 4: required list<i32> li; 5: required list<i64> ll;
 6: required list<double> ld; 7: required list<string> lst; 8: required list<binary> lbi; 9: required list<Color> lc; 10: required list<Inner> lin;
 11: required list<Choice> lch; 12: required list<LI> lli; 13: required list<LLB> llb;
}
struct OptLists {
 1: optional list<bool> lb; 2: optional list<byte> lby; 3: optional list<i16> ls; 4: optional list<i32> li; 5: optional list<i64> ll;
 6: optional list<double> ld; 7: optional list<string> lst; 8: optional list<binary> lbi; 9: optional list<Color> lc; 10: optional list<Inner> lin;
 11: optional list<Choice> lch; 12: optional list<LI> lli; 13: optional list<LLB> llb;
}
struct Sets { 1: required set<i32> a; 2: optional set<string> b; }
struct Inner { 1: required i32 a; 2: optional string b; }
struct Mid { 1: required Inner x; 2: optional Inner y; 3: optional list<Inner> zs; 4: optional Choice c; }
struct Nested { 1: required Inner x; 2: optional Mid y; 3: required list<Mid> zs; 4: optional Choice c; 5: required Mid m; 6: required Choice rc; }
union Choice {
 1: i32 n; 2: string s; 3: bool flag; 4: Inner inner; 5: list<i32> li; 6: double d; 7: byte by; 20: i64 far; -1: binary neg;
 8: Sub sub; 9: Color color; 10: Box<Inner> boxed; 11: list<bool> lb; 12: Arc<String> arc;
}
union Sub { 1: Empty nothing; 2: bool b; 16: i16 s; }
union One { 1: bool only; }
union Far {
 1: i32 a; 16: bool b; 31: string c; 300: bool d; 301: double e; -2: bool f; -3: list<i32> g; 5000: Inner h; 32767: Choice i; 1025: list<bool> j; 17: byte k; 18: i16 l; 1026: Box<bool> m; -32768: binary n;
}
struct Node { 1: optional Box<Node> next; 2: optional list<Node> kids; 3: optional i32 v; }
struct Ptrs {
 1: required Box<bool> bb; 2: required Rc<bool> rb; 3: required Arc<bool> ab; 4: required Box<i32> bi; 5: required Rc<String> rs;
 6: required Arc<String> as_; 7: required Rc<str> rstr; 8: required Arc<str> astr; 9: required Box<str> bstr; 10: required Box<Inner> binn;
 11: required Rc<Inner> rinn; 12: required Arc<Choice> ach; 13: required Box<Color> bc; 14: required Rc<LI> rli; 15: required Arc<i64> al;
 16: required Box<double> bd; 17: required Box<string> bst; 18: required Arc<binary> abin; 19: required Rc<byte> rby;
}
struct OptPtrs {
 1: optional Box<bool> bb; 2: optional Rc<bool> rb; 3: optional Arc<bool> ab; 4: optional Box<i32> bi; 5: optional Rc<String> rs;
 6: optional Arc<String> as_; 7: optional Rc<str> rstr; 8: optional Arc<str> astr; 9: optional Box<str> bstr; 10: optional Box<Inner> binn;
 11: optional Rc<Inner> rinn; 12: optional Arc<Choice> ach; 13: optional Box<Color> bc; 14: optional Rc<LI> rli; 15: optional Arc<i64> al;
 16: optional Box<double> bd; 17: optional Box<string> bst; 18: optional Arc<binary> abin; 19: optional Rc<byte> rby;
}
struct Names { 1: required i32 input; 2: required bool output; 3: required i32 field_type; 4: optional i32 last_field_id; 5: optional i32 result; 6: required i32 T; }
# default values are accepted by the declaration and have no effect
struct Dflts { 1: required i32 a = 7; 2: optional bool b = true; 3: optional string c = "hey"; 4: required double d = 1.5; 5: optional i64 e = -3; 20: required bool f = true; 21: optional Color g = 1; 22: required string h = "x"; }
# twins of Ptrs and OptPtrs without the pointers
struct Plain {
 1: required bool bb; 2: required bool rb; 3: required bool ab; 4: required i32 bi; 5: required string rs;
 6: required string as_; 7: required string rstr; 8: required string astr; 9: required string bstr; 10: required Inner binn;
 11: required Inner rinn; 12: required Choice ach; 13: required Color bc; 14: required list<i32> rli; 15: required i64 al;
 16: required double bd; 17: required string bst; 18: required binary abin; 19: required byte rby;
}
struct OptPlain {
 1: optional bool bb; 2: optional bool rb; 3: optional bool ab; 4: optional i32 bi; 5: optional string rs;
 6: optional string as_; 7: optional string rstr; 8: optional string astr; 9: optional string bstr; 10: optional Inner binn;
 11: optional Inner rinn; 12: optional Choice ach; 13: optional Color bc; 14: optional list<i32> rli; 15: optional i64 al;
 16: optional double bd; 17: optional string bst; 18: optional binary abin; 19: optional byte rby;
}
union PtrUnion { 1: Box<bool> a; 2: Rc<Inner> b; 3: Arc<str> c; 4: Box<i32> d; 5: Rc<LI> e; 6: Arc<Choice> f; 7: Box<str> g; 8: Rc<bool> h; 9: Arc<binary> i; 10: Box<Color> j; }
union PlainUnion { 1: bool a; 2: Inner b; 3: string c; 4: i32 d; 5: list<i32> e; 6: Choice f; 7: string g; 8: bool h; 9: binary i; 10: Color j; }
